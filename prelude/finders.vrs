// -------------------------------------------------- what an expression contains
pub mod vxfind {
use vstd::prelude::*;
use super::vxcore::*;
use super::swcbase::*;
use super::ast::*;
/// what the finders look for: functions and classes (Hoist), blocks, statements, expressions, logical operators
pub enum What { Hoist, Block, Stmt, Expr, Logic }
/// is a node itself what is looked for
pub uninterp spec fn here<N>(n: N, w: What) -> bool;
pub open spec fn logical(op: BinaryOp) -> bool { op == BinaryOp::LogicalOr || op == BinaryOp::LogicalAnd || op == BinaryOp::NullishCoalescing }
pub broadcast axiom fn ax_here_fn(n: FnExpr) ensures #[trigger] here(n, What::Hoist);
pub broadcast axiom fn ax_here_arrow(n: ArrowExpr) ensures #[trigger] here(n, What::Hoist);
pub broadcast axiom fn ax_here_class(n: ClassExpr) ensures #[trigger] here(n, What::Hoist);
pub broadcast axiom fn ax_here_block(n: BlockStmt) ensures #[trigger] here(n, What::Block);
pub broadcast axiom fn ax_here_stmt(n: Stmt) ensures #[trigger] here(n, What::Stmt);
pub broadcast axiom fn ax_here_expr(n: Expr) ensures #[trigger] here(n, What::Expr);
pub broadcast axiom fn ax_here_bin(n: BinExpr) ensures #[trigger] here(n, What::Logic) == logical(n.op);
pub broadcast group ax_here { ax_here_fn, ax_here_arrow, ax_here_class, ax_here_block, ax_here_stmt, ax_here_expr, ax_here_bin }
/// is it anywhere below (swc_ecma_visit's traversal of the children)
pub uninterp spec fn below<N>(n: N, w: What) -> bool;
pub trait VxFinder: Sized { spec fn found(&self) -> bool; spec fn what(&self) -> What; }
pub trait VxFind: Sized {
  fn visit_children_with<F: VxFinder>(&self, f: &mut F) ensures final(f).found() == (old(f).found() || below(*self, old(f).what())), final(f).what() == old(f).what();
}
impl<N> VxFind for N { #[verifier::external_body] fn visit_children_with<F: VxFinder>(&self, f: &mut F) { unimplemented!() } }
}
use vxfind::*;
