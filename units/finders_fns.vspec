%fn finders.rs HoistingFinder::new
%ret r
  ensures !r.0,

%fn finders.rs BlockStmtFinder::new
%ret r
  ensures !r.0,

%fn finders.rs StmtFinder::new
%ret r
  ensures !r.0,

%fn finders.rs ExprFinder::new
%ret r
  ensures !r.0,

%fn finders.rs Visit@HoistingFinder::visit_fn_expr
%params n
  ensures final(self).0 == (old(self).0 || here(*n, old(self).what())),
%start
  broadcast use ax_here;

%fn finders.rs Visit@HoistingFinder::visit_arrow_expr
%params n
  ensures final(self).0 == (old(self).0 || here(*n, old(self).what())),
%start
  broadcast use ax_here;

%fn finders.rs Visit@HoistingFinder::visit_class_expr
%params n
  ensures final(self).0 == (old(self).0 || here(*n, old(self).what())),
%start
  broadcast use ax_here;

%impl finders.rs Visit@HoistingFinder
%params n
  ensures final(self).0 == (old(self).0 || below(*n, old(self).what())),

%fn finders.rs Visit@BlockStmtFinder::visit_block_stmt
%params n
  ensures final(self).0 == (old(self).0 || here(*n, old(self).what())),
%start
  broadcast use ax_here;

%impl finders.rs Visit@BlockStmtFinder
%params n
  ensures final(self).0 == (old(self).0 || below(*n, old(self).what())),

%fn finders.rs Visit@StmtFinder::visit_stmt
%params n
  ensures final(self).0 == (old(self).0 || here(*n, old(self).what())),
%start
  broadcast use ax_here;

%impl finders.rs Visit@StmtFinder
%params n
  ensures final(self).0 == (old(self).0 || below(*n, old(self).what())),

%fn finders.rs Visit@ExprFinder::visit_expr
%params n
  ensures final(self).0 == (old(self).0 || here(*n, old(self).what())),
%start
  broadcast use ax_here;

%impl finders.rs Visit@ExprFinder
%params n
  ensures final(self).0 == (old(self).0 || below(*n, old(self).what())),

%fn finders.rs Visit@LogicalExprLeafFinder::visit_bin_expr
%params n
  ensures final(self).0 == (old(self).0 || here(*n, old(self).what()) || below(*n, old(self).what())),
%start
  broadcast use ax_here;

%impl finders.rs Visit@LogicalExprLeafFinder
%params n
  ensures final(self).0 == (old(self).0 || below(*n, old(self).what())),
