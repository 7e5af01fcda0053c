// -------------------------------------------------- what the visitors share: the recorder and what visiting a node does
pub mod vxvisit {
use vstd::prelude::*;
use super::vxcore::*;
use super::swcbase::*;
use super::swcdummy::*;
use super::ast::*;
use super::vxsites::*;
use super::{Range, Location, BranchType, IgnoreScope, Node, InstrumentOptions, SourceMap};
use super::{Rec, FnE, BrE, rec_stmt, rec_fn, rec_branch, rec_path, anonymous, scope_of, range_of};

// --- vectors as values: a vector is its elements
pub uninterp spec fn mkvec<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn ax_mkvec<T>(s: Seq<T>) ensures #[trigger] mkvec(s)@ == s;
pub broadcast axiom fn ax_mkvec_of<T>(v: Vec<T>) ensures mkvec(#[trigger] v@) == v;
pub broadcast proof fn lem_push_drop<T>(s: Seq<T>, x: T) ensures (#[trigger] s.push(x)).drop_last() == s { assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn lem_empty_add<T>(s: Seq<T>) ensures #[trigger] (Seq::<T>::empty() + s) == s { assert(Seq::<T>::empty() + s =~= s); }
pub broadcast group vecs { ax_mkvec, ax_mkvec_of, lem_push_drop, lem_empty_add }
#[verifier::external_body] pub fn vx_vec0<T>() -> (r: Vec<T>) ensures r == mkvec(Seq::<T>::empty()) { unimplemented!() }
#[verifier::external_body] pub fn vx_vec1<T>(a: T) -> (r: Vec<T>) ensures r == mkvec(seq![a]) { unimplemented!() }
#[verifier::external_body] pub fn vx_vec2<T>(a: T, b: T) -> (r: Vec<T>) ensures r == mkvec(seq![a, b]) { unimplemented!() }
#[verifier::external_body] pub fn vx_vec3<T>(a: T, b: T, c: T) -> (r: Vec<T>) ensures r == mkvec(seq![a, b, c]) { unimplemented!() }

// --- what the visitors read: the hints in front of code (C16) and the place of code in the file (C17)
pub struct Env { pub hint: spec_fn(Span) -> Option<Seq<char>>, pub rng: spec_fn(Span) -> Range }
pub open spec fn env_of<C: Comments, S: SourceMapper>(c: C, s: Arc<S>) -> Env { Env { hint: |sp: Span| hint_at(c, sp), rng: |sp: Span| range_of(s.inner(), sp) } }
pub open spec fn text(x: Ctx, sp: Span) -> Option<Seq<char>> { (x.env.hint)(sp) }
pub open spec fn z_hint(x: Ctx, sp: Span) -> Option<IgnoreScope> { scope_of(text(x, sp)) }
pub open spec fn rng(x: Ctx, sp: Span) -> Range { (x.env.rng)(sp) }
/// `span()` of swc_common::Spanned
pub uninterp spec fn span_of<N>(n: N) -> Span;
pub trait Spanned: Sized { fn span(&self) -> (r: Span) ensures r == span_of(*self); }
impl Spanned for Expr { #[verifier::external_body] fn span(&self) -> (r: Span) { unimplemented!() } }
impl Spanned for Stmt { #[verifier::external_body] fn span(&self) -> (r: Span) { unimplemented!() } }
impl Spanned for ModuleDecl { #[verifier::external_body] fn span(&self) -> (r: Span) { unimplemented!() } }
impl Spanned for PropName { #[verifier::external_body] fn span(&self) -> (r: Span) { unimplemented!() } }
impl Spanned for Pat { #[verifier::external_body] fn span(&self) -> (r: Span) { unimplemented!() } }

// --- the recorder (its contracts are those proved for C11; no more than 2^32 entries of a kind)
#[verifier::external_body] pub struct SourceCoverage { x: u8 }
pub open spec fn no_rec() -> Rec { Rec { s: Seq::empty(), f: Seq::empty(), b: Seq::empty() } }
/// branches without paths are left out (C11)
pub uninterp spec fn frozen(c: Rec) -> Rec;
pub uninterp spec fn frozen_data(c: SourceCoverage) -> FileCoverage;
pub struct FileCoverage { pub path: String, pub rest: u8 }
pub open spec fn fname(o: Option<String>, id: nat) -> Seq<char> { match o { Some(t) => t@, None => anonymous(id as u32) } }
impl SourceCoverage {
  pub uninterp spec fn path(&self) -> Seq<char>;
  pub uninterp spec fn rec(&self) -> Rec;
  /// the coverage data itself
  pub uninterp spec fn inner(&self) -> FileCoverage;
  #[verifier::external_body] pub fn vx_as_ref(&self) -> (r: &FileCoverage) ensures r.path@ == self.path(), *r == self.inner() { unimplemented!() }
  #[verifier::external_body] pub fn new(file_path: String, report_logic: bool) -> (r: Self) ensures r.rec() == no_rec(), r.path() == file_path@ { unimplemented!() }
  #[verifier::external_body] pub fn set_input_source_map(&mut self, source_map: &Option<SourceMap>) ensures final(self).rec() == old(self).rec(), final(self).path() == old(self).path() { unimplemented!() }
  #[verifier::external_body] pub fn freeze(&mut self) ensures final(self).rec() == frozen(old(self).rec()), final(self).path() == old(self).path(), final(self).inner() == frozen_data(*old(self)) { unimplemented!() }
  #[verifier::external_body] pub fn new_statement(&mut self, loc: &Range) -> (r: u32)
    ensures r == old(self).rec().s.len(), final(self).rec() == rec_stmt(old(self).rec(), *loc), final(self).path() == old(self).path() { unimplemented!() }
  #[verifier::external_body] pub fn new_function(&mut self, name: &Option<String>, decl: &Range, loc: &Range) -> (r: u32)
    ensures r == old(self).rec().f.len(), final(self).rec() == rec_fn(old(self).rec(), fname(*name, r as nat), *decl, *loc), final(self).path() == old(self).path() { unimplemented!() }
  #[verifier::external_body] pub fn new_branch(&mut self, branch_type: BranchType, loc: &Range, is_report_logic: bool) -> (r: u32)
    ensures r == old(self).rec().b.len(), final(self).rec() == rec_branch(old(self).rec(), branch_type, *loc, is_report_logic), final(self).path() == old(self).path() { unimplemented!() }
  #[verifier::external_body] pub fn add_branch_path(&mut self, name: u32, location: &Range) -> (r: u32)
    requires name < old(self).rec().b.len()
    ensures r == old(self).rec().b[name as int].paths.len(), final(self).rec() == rec_path(old(self).rec(), name as int, *location), final(self).path() == old(self).path() { unimplemented!() }
}
/// the recorder that is shared by the visitors of a file
pub struct World { pub cov: SourceCoverage }
pub uninterp spec fn fn_ident(path: Seq<char>) -> Ident;
pub uninterp spec fn temp_ident(path: Seq<char>) -> Ident;

// --- visitors
pub enum Kind { Stmts, Switch(u32), Logic(u32), Root }
/// all that a visitor depends on, apart from what is recorded so far
pub struct Ctx { pub env: Env, pub ign: Option<IgnoreScope>, pub nodes: Seq<Node>, pub opts: InstrumentOptions, pub kind: Kind, pub f: Ident, pub t: Ident }
pub trait VxVisitor: Sized {
  spec fn ctx(&self) -> Ctx;
  /// the statements to be put in front of the current one
  spec fn bef(&self) -> Seq<Stmt>;
  /// what never changes
  spec fn same(&self, o: Self) -> bool;
}
/// the visitor belongs to this recorder
pub open spec fn fits<V: VxVisitor>(v: V, w: World) -> bool { fitx(v.ctx(), w) }
pub open spec fn fitx(x: Ctx, w: World) -> bool {
  x.f == fn_ident(w.cov.path()) && x.t == temp_ident(w.cov.path()) && has_b(x.kind, w.cov.rec())
}
pub open spec fn has_b(k: Kind, c: Rec) -> bool { match k { Kind::Switch(b) => b < c.b.len(), Kind::Logic(b) => b < c.b.len(), _ => true } }
/// what visiting a node results in: the new node, the statements to be put in front, what is recorded
pub struct Out<N> { pub n: N, pub q: Seq<Stmt>, pub c: Rec }
/// visiting the children of a node; visiting a node (swc_ecma_visit's traversal with these visitors)
pub uninterp spec fn z_kids<N>(n: N, x: Ctx, c: Rec) -> Out<N>;
pub uninterp spec fn z_visit<N>(n: N, x: Ctx, c: Rec) -> Out<N>;
/// a visitor did this
pub open spec fn did<V: VxVisitor, N>(v0: V, v1: V, w0: World, w1: World, n1: N, o: Out<N>) -> bool {
  &&& v1.ctx() == v0.ctx() && v1.same(v0)
  &&& v1.bef() =~= v0.bef() + o.q
  &&& w1.cov.rec() == o.c && w1.cov.path() == w0.cov.path()
  &&& n1 == o.n
}
/// what is recorded is never lost (by induction over the tree: the recorder's operations only add)
pub open spec fn more(c: Rec, d: Rec) -> bool { c.s.len() <= d.s.len() && c.f.len() <= d.f.len() && c.b.len() <= d.b.len() }
pub broadcast axiom fn ax_kids_more<N>(n: N, x: Ctx, c: Rec) ensures more(c, (#[trigger] z_kids(n, x, c)).c);
pub broadcast axiom fn ax_visit_more<N>(n: N, x: Ctx, c: Rec) ensures more(c, (#[trigger] z_visit(n, x, c)).c);
/// an expression stays where it is
pub broadcast axiom fn ax_kids_span(n: Expr, x: Ctx, c: Rec) ensures span_of((#[trigger] z_kids(n, x, c)).n) == span_of(n);
pub broadcast axiom fn ax_visit_span(n: Box<Expr>, x: Ctx, c: Rec) ensures span_of(*(#[trigger] z_visit(n, x, c)).n) == span_of(*n);
pub broadcast group traversal { ax_kids_more, ax_visit_more, ax_kids_span, ax_visit_span, vecs }
/// how many of what is recorded, without the places
pub struct BrS { pub kind: BranchType, pub n: nat, pub truthy: bool }
pub struct Shape { pub s: nat, pub f: Seq<Seq<char>>, pub b: Seq<BrS> }
pub open spec fn br_s(b: BrE) -> BrS { BrS { kind: b.kind, n: b.paths.len(), truthy: b.truthy } }
pub open spec fn shape(c: Rec) -> Shape { Shape { s: c.s.len(), f: c.f.map_values(|f: FnE| f.name), b: c.b.map_values(|b: BrE| br_s(b)) } }
pub open spec fn blank(s: Shape) -> Rec { let r = Range { start: Location { line: 0, column: 0 }, end: Location { line: 0, column: 0 } };
  Rec { s: Seq::new(s.s, |i: int| r), f: s.f.map_values(|n: Seq<char>| FnE { name: n, decl: r, loc: r }), b: s.b.map_values(|b: BrS| BrE { kind: b.kind, loc: None, paths: Seq::new(b.n, |i: int| r), truthy: b.truthy }) } }
pub broadcast proof fn lem_shape_s(c: Rec, l: Range) ensures shape(#[trigger] rec_stmt(c, l)) == (Shape { s: shape(c).s + 1, ..shape(c) }) { }
pub broadcast proof fn lem_shape_f(c: Rec, n: Seq<char>, d: Range, l: Range) ensures shape(#[trigger] rec_fn(c, n, d, l)) == (Shape { f: shape(c).f.push(n), ..shape(c) }) { assert(shape(rec_fn(c, n, d, l)).f =~= shape(c).f.push(n)); }
pub broadcast proof fn lem_shape_b(c: Rec, k: BranchType, l: Range, g: bool) ensures shape(#[trigger] rec_branch(c, k, l, g)) == (Shape { b: shape(c).b.push(BrS { kind: k, n: 0, truthy: k == BranchType::BinaryExpr && g }), ..shape(c) })
{ assert(shape(rec_branch(c, k, l, g)).b =~= shape(c).b.push(BrS { kind: k, n: 0, truthy: k == BranchType::BinaryExpr && g })); }
pub broadcast proof fn lem_shape_p(c: Rec, b: int, l: Range) requires 0 <= b < c.b.len() ensures shape(#[trigger] rec_path(c, b, l)) == (Shape { b: shape(c).b.update(b, BrS { n: shape(c).b[b].n + 1, ..shape(c).b[b] }), ..shape(c) })
{ assert(shape(rec_path(c, b, l)).b =~= shape(c).b.update(b, BrS { n: shape(c).b[b].n + 1, ..shape(c).b[b] })); }
pub broadcast proof fn lem_shape_n(c: Rec, i: int) requires 0 <= i < c.b.len() ensures (#[trigger] c.b[i]).paths.len() == shape(c).b[i].n { }
/// the new code and how many of what is recorded do not depend on places
pub uninterp spec fn zk_n<N>(n: N, x: Ctx, s: Shape) -> N;
pub uninterp spec fn zk_q<N>(n: N, x: Ctx, s: Shape) -> Seq<Stmt>;
pub uninterp spec fn zk_s<N>(n: N, x: Ctx, s: Shape) -> Shape;
pub uninterp spec fn zv_n<N>(n: N, x: Ctx, s: Shape) -> N;
pub uninterp spec fn zv_q<N>(n: N, x: Ctx, s: Shape) -> Seq<Stmt>;
pub uninterp spec fn zv_s<N>(n: N, x: Ctx, s: Shape) -> Shape;
pub broadcast axiom fn ax_kids_shape<N>(n: N, x: Ctx, c: Rec) ensures (#[trigger] z_kids(n, x, c)).n == zk_n(n, x, shape(c)), z_kids(n, x, c).q == zk_q(n, x, shape(c)), shape(z_kids(n, x, c).c) == zk_s(n, x, shape(c));
pub broadcast axiom fn ax_visit_shape<N>(n: N, x: Ctx, c: Rec) ensures (#[trigger] z_visit(n, x, c)).n == zv_n(n, x, shape(c)), z_visit(n, x, c).q == zv_q(n, x, shape(c)), shape(z_visit(n, x, c).c) == zv_s(n, x, shape(c));
pub broadcast group shapes { lem_shape_s, lem_shape_f, lem_shape_b, lem_shape_p, lem_shape_n, ax_kids_shape, ax_visit_shape }
pub trait VxNode: Sized {
  fn visit_mut_children_with<V: VxVisitor>(&mut self, v: &mut V, vxw: &mut World)
    requires fits(*old(v), *old(vxw))
    ensures did(*old(v), *final(v), *old(vxw), *final(vxw), *final(self), z_kids(*old(self), old(v).ctx(), old(vxw).cov.rec()));
  fn visit_mut_with<V: VxVisitor>(&mut self, v: &mut V, vxw: &mut World)
    requires fits(*old(v), *old(vxw))
    ensures did(*old(v), *final(v), *old(vxw), *final(vxw), *final(self), z_visit(*old(self), old(v).ctx(), old(vxw).cov.rec()));
}
pub trait VxFinder: Sized { spec fn found(&self) -> bool; spec fn finds(&self, e: Expr) -> bool; }
pub trait VxFind: Sized {
  spec fn ex(&self) -> Expr;
  fn visit_with<F: VxFinder>(&self, f: &mut F) ensures final(f).found() == (old(f).found() || old(f).finds(self.ex()));
}
}
use vxvisit::*;
pub mod vxvisit2 {
use vstd::prelude::*;
use super::vxcore::*;
use super::swcbase::*;
use super::swcdummy::*;
use super::ast::*;
use super::vxsites::*;
use super::vxvisit::*;
use super::{Range, Location, BranchType, IgnoreScope, Node, InstrumentOptions, SourceMap};
impl<N> VxNode for N {
  #[verifier::external_body] fn visit_mut_children_with<V: VxVisitor>(&mut self, v: &mut V, vxw: &mut World) { unimplemented!() }
  #[verifier::external_body] fn visit_mut_with<V: VxVisitor>(&mut self, v: &mut V, vxw: &mut World) { unimplemented!() }
}
impl VxFind for Expr { open spec fn ex(&self) -> Expr { *self } #[verifier::external_body] fn visit_with<F: VxFinder>(&self, f: &mut F) { unimplemented!() } }
// --- what an expression contains (finders.rs)
pub uninterp spec fn has_block(e: Expr) -> bool;
pub uninterp spec fn has_stmt(e: Expr) -> bool;
pub uninterp spec fn has_fn(e: Expr) -> bool;
pub uninterp spec fn has_expr(e: Expr) -> bool;
pub uninterp spec fn has_logic(e: Expr) -> bool;
pub struct BlockStmtFinder(pub bool);
pub struct StmtFinder(pub bool);
pub struct HoistingFinder(pub bool);
pub struct ExprFinder(pub bool);
pub struct LogicalExprLeafFinder(pub bool);
impl BlockStmtFinder { #[verifier::external_body] pub fn new() -> (r: Self) ensures !r.0 { unimplemented!() } }
impl StmtFinder { #[verifier::external_body] pub fn new() -> (r: Self) ensures !r.0 { unimplemented!() } }
impl HoistingFinder { #[verifier::external_body] pub fn new() -> (r: Self) ensures !r.0 { unimplemented!() } }
impl ExprFinder { #[verifier::external_body] pub fn new() -> (r: Self) ensures !r.0 { unimplemented!() } }
impl VxFinder for BlockStmtFinder { open spec fn found(&self) -> bool { self.0 } open spec fn finds(&self, e: Expr) -> bool { has_block(e) } }
impl VxFinder for StmtFinder { open spec fn found(&self) -> bool { self.0 } open spec fn finds(&self, e: Expr) -> bool { has_stmt(e) } }
impl VxFinder for HoistingFinder { open spec fn found(&self) -> bool { self.0 } open spec fn finds(&self, e: Expr) -> bool { has_fn(e) } }
impl VxFinder for ExprFinder { open spec fn found(&self) -> bool { self.0 } open spec fn finds(&self, e: Expr) -> bool { has_expr(e) } }
impl VxFinder for LogicalExprLeafFinder { open spec fn found(&self) -> bool { self.0 } open spec fn finds(&self, e: Expr) -> bool { has_logic(e) } }
// --- handles to the shared recorder
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Rc<T> { s: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct RefCell<T> { s: core::marker::PhantomData<T> }
impl<T> Clone for Rc<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn vx_share(cov: SourceCoverage, vxw: &mut World) -> (r: Rc<RefCell<SourceCoverage>>) ensures final(vxw).cov == cov { unimplemented!() }
// --- values
pub trait Take: Sized { fn take(&mut self) -> (r: Self) ensures r == *old(self); }
impl Take for Expr { #[verifier::external_body] fn take(&mut self) -> (r: Self) { unimplemented!() } }
impl Take for Box<Expr> { #[verifier::external_body] fn take(&mut self) -> (r: Self) { unimplemented!() } }
impl Take for Box<Stmt> { #[verifier::external_body] fn take(&mut self) -> (r: Self) { unimplemented!() } }
pub open spec fn blank_block() -> BlockStmt { BlockStmt { span: DUMMY_SP, ctxt: no_ctxt(), stmts: mkvec(Seq::empty()) } }
impl BlockStmt { #[verifier::external_body] pub fn dummy() -> (r: Self) ensures r == blank_block() { unimplemented!() } }
impl Default for BlockStmt { #[verifier::external_body] fn default() -> (r: Self) ensures r == blank_block() { unimplemented!() } }
impl VxInto<Ident> for IdentName { open spec fn into_rel(self, r: Ident) -> bool { r.sym == self.sym && r.span == self.span } #[verifier::external_body] fn vx_into(self) -> (r: Ident) { unimplemented!() } }
impl VxToString for Atom { open spec fn str_of(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxDisplay for Atom { open spec fn vx_disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_display(&self, s: &mut String) { unimplemented!() } }
impl Atom { #[verifier::external_body] pub fn vx_text(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } }
pub trait VxAsRef<T> { fn vx_as_ref(&self) -> (r: &T) ensures *r == self.refd(); spec fn refd(&self) -> T; }
impl<T> VxAsRef<T> for Box<T> { open spec fn refd(&self) -> T { **self } fn vx_as_ref(&self) -> (r: &T) { &**self } }
pub trait VxAsRefO<T> { fn vx_as_ref(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.refo() is Some && *x == self.refo()->0, None => self.refo() is None }; spec fn refo(&self) -> Option<T>; }
impl<T> VxAsRefO<T> for Option<T> { open spec fn refo(&self) -> Option<T> { *self } #[verifier::external_body] fn vx_as_ref(&self) -> (r: Option<&T>) { unimplemented!() } }
pub trait VxOwned { spec fn ow(&self) -> Seq<char>; fn vx_to_owned(&self) -> (r: String) ensures r@ == self.ow(); }
impl<'a> VxOwned for &'a str { open spec fn ow(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { unimplemented!() } }
pub trait VxEq { spec fn eqv(&self, o: &Self) -> bool; }
#[verifier::external_body] pub fn vx_eq<A: VxEq>(a: &A, b: &A) -> (r: bool) ensures r == a.eqv(b) { unimplemented!() }
impl<'a> VxEq for &'a str { open spec fn eqv(&self, o: &Self) -> bool { self@ == o@ } }
impl<'a> VxEq for &'a Ident { open spec fn eqv(&self, o: &Self) -> bool { **self == **o } }
impl<'a> VxEq for &'a Node { open spec fn eqv(&self, o: &Self) -> bool { **self == **o } }
impl VxEq for Node { open spec fn eqv(&self, o: &Self) -> bool { *self == *o } }
impl VxEq for Option<IgnoreScope> { open spec fn eqv(&self, o: &Self) -> bool { *self == *o } }
impl<'a> VxEq for Option<&'a Node> { open spec fn eqv(&self, o: &Self) -> bool { match (*self, *o) { (Some(a), Some(b)) => *a == *b, (None, None) => true, _ => false } } }
impl<'a> VxEq for Option<&'a str> { open spec fn eqv(&self, o: &Self) -> bool { match (*self, *o) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false } } }
impl VxEq for VarDeclKind { open spec fn eqv(&self, o: &Self) -> bool { *self == *o } }
impl VxEq for usize { open spec fn eqv(&self, o: &Self) -> bool { *self == *o } }
pub fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == if a > b { a } else { b } { if a > b { a } else { b } }
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
pub trait VxItems<T> { spec fn items(self) -> Seq<T>; spec fn ready(self) -> bool; }
impl<T> VxItems<T> for VxIt<T> { open spec fn items(self) -> Seq<T> { self@ } open spec fn ready(self) -> bool { self.pos() == 0 } }
impl<T> VxItems<T> for Vec<T> { open spec fn items(self) -> Seq<T> { self@ } open spec fn ready(self) -> bool { true } }
pub trait VxList<T>: Sized {
  spec fn ls(&self) -> Seq<T>;
  fn vx_drain(&mut self) -> (r: VxIt<T>) ensures r.pos() == 0, r@ == old(self).ls(), final(self).ls().len() == 0;
  fn vx_extend<I: VxItems<T>>(&mut self, i: I) requires i.ready() ensures final(self).ls() == old(self).ls() + i.items();
  fn vx_last(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.ls().len() > 0 && *x == self.ls().last(), None => self.ls().len() == 0 };
  fn vx_first(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.ls().len() > 0 && *x == self.ls()[0], None => self.ls().len() == 0 };
  fn vx_get(&self, i: usize) -> (r: Option<&T>) ensures match r { Some(x) => i < self.ls().len() && *x == self.ls()[i as int], None => i >= self.ls().len() };
}
impl<T> VxList<T> for Vec<T> {
  open spec fn ls(&self) -> Seq<T> { self@ }
  #[verifier::external_body] fn vx_drain(&mut self) -> (r: VxIt<T>) { unimplemented!() }
  #[verifier::external_body] fn vx_extend<I: VxItems<T>>(&mut self, i: I) { unimplemented!() }
  #[verifier::external_body] fn vx_last(&self) -> (r: Option<&T>) { unimplemented!() }
  #[verifier::external_body] fn vx_first(&self) -> (r: Option<&T>) { unimplemented!() }
  #[verifier::external_body] fn vx_get(&self, i: usize) -> (r: Option<&T>) { unimplemented!() }
}
}
use vxvisit2::*;
