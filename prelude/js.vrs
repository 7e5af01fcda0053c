/// what swc's constructors and conversions produce (trusted, from swc_ecma_ast)
pub mod swcdummy {
use vstd::prelude::*;
use super::vxcore::*;
use super::swcbase::*;
use super::ast::*;
pub trait VxInto<T>: Sized { spec fn into_rel(self, r: T) -> bool; fn vx_into(self) -> (r: T) ensures self.into_rel(r); }
pub fn vx_from<T, S: VxInto<T>>(s: S) -> (r: T) ensures s.into_rel(r) { s.vx_into() }
impl<'a> VxInto<Atom> for &'a str { open spec fn into_rel(self, r: Atom) -> bool { r@ == self@ } #[verifier::external_body] fn vx_into(self) -> (r: Atom) { unimplemented!() } }
impl VxInto<Atom> for String { open spec fn into_rel(self, r: Atom) -> bool { r@ == self@ } #[verifier::external_body] fn vx_into(self) -> (r: Atom) { unimplemented!() } }
impl VxInto<IdentName> for Ident { open spec fn into_rel(self, r: IdentName) -> bool { r.sym@ == self.sym@ } #[verifier::external_body] fn vx_into(self) -> (r: IdentName) { unimplemented!() } }
impl VxInto<AssignTarget> for MemberExpr { open spec fn into_rel(self, r: AssignTarget) -> bool { r == AssignTarget::Simple(SimpleAssignTarget::Member(self)) } #[verifier::external_body] fn vx_into(self) -> (r: AssignTarget) { unimplemented!() } }
impl VxInto<AssignTarget> for BindingIdent { open spec fn into_rel(self, r: AssignTarget) -> bool { r == AssignTarget::Simple(SimpleAssignTarget::Ident(self)) } #[verifier::external_body] fn vx_into(self) -> (r: AssignTarget) { unimplemented!() } }
impl VxInto<BindingIdent> for Ident { open spec fn into_rel(self, r: BindingIdent) -> bool { r.id == self && r.type_ann is None } #[verifier::external_body] fn vx_into(self) -> (r: BindingIdent) { unimplemented!() } }
impl VxInto<Bool> for bool { open spec fn into_rel(self, r: Bool) -> bool { r.value == self } #[verifier::external_body] fn vx_into(self) -> (r: Bool) { unimplemented!() } }
impl<'a> VxInto<Str> for &'a str { open spec fn into_rel(self, r: Str) -> bool { r.value@ == self@ && r.raw is None } #[verifier::external_body] fn vx_into(self) -> (r: Str) { unimplemented!() } }
impl VxInto<Str> for String { open spec fn into_rel(self, r: Str) -> bool { r.value@ == self@ && r.raw is None } #[verifier::external_body] fn vx_into(self) -> (r: Str) { unimplemented!() } }
impl VxInto<Str> for Atom { open spec fn into_rel(self, r: Str) -> bool { r.value@ == self@ && r.raw is None } #[verifier::external_body] fn vx_into(self) -> (r: Str) { unimplemented!() } }
impl VxInto<f64> for u8 { open spec fn into_rel(self, r: f64) -> bool { r == int_to_f64(self as int) } #[verifier::external_body] fn vx_into(self) -> (r: f64) { unimplemented!() } }
impl VxInto<f64> for u16 { open spec fn into_rel(self, r: f64) -> bool { r == int_to_f64(self as int) } #[verifier::external_body] fn vx_into(self) -> (r: f64) { unimplemented!() } }
impl VxInto<f64> for u32 { open spec fn into_rel(self, r: f64) -> bool { r == int_to_f64(self as int) } #[verifier::external_body] fn vx_into(self) -> (r: f64) { unimplemented!() } }
impl VxInto<f64> for i8 { open spec fn into_rel(self, r: f64) -> bool { r == int_to_f64(self as int) } #[verifier::external_body] fn vx_into(self) -> (r: f64) { unimplemented!() } }
impl VxInto<f64> for i16 { open spec fn into_rel(self, r: f64) -> bool { r == int_to_f64(self as int) } #[verifier::external_body] fn vx_into(self) -> (r: f64) { unimplemented!() } }
impl VxInto<f64> for i32 { open spec fn into_rel(self, r: f64) -> bool { r == int_to_f64(self as int) } #[verifier::external_body] fn vx_into(self) -> (r: f64) { unimplemented!() } }
pub open spec fn no_str(x: Str) -> bool { x.value@.len() == 0 && x.raw is None }
impl Str { #[verifier::external_body] pub fn dummy() -> (r: Self) ensures no_str(r) { unimplemented!() } }
impl Null { #[verifier::external_body] pub fn dummy() -> (r: Self) { unimplemented!() } }
impl Ident {
  #[verifier::external_body] pub fn dummy() -> (r: Self) ensures r.ctxt == no_ctxt(), r.sym@.len() == 0, !r.optional, r.span == DUMMY_SP { unimplemented!() }
  #[verifier::external_body] pub fn new(sym: Atom, span: Span, ctxt: SyntaxContext) -> (r: Self) ensures r.ctxt == ctxt, r.sym == sym, !r.optional, r.span == span { unimplemented!() }
}
impl IdentName {
  #[verifier::external_body] pub fn dummy() -> (r: Self) ensures r.sym@.len() == 0 { unimplemented!() }
  #[verifier::external_body] pub fn new(sym: Atom, span: Span) -> (r: Self) ensures r.sym == sym, r.span == span { unimplemented!() }
}
pub open spec fn no_call(x: CallExpr) -> bool { x.ctxt == no_ctxt() && x.args@.len() == 0 && x.type_args is None }
impl CallExpr { #[verifier::external_body] pub fn dummy() -> (r: Self) ensures no_call(r) { unimplemented!() } }
impl Default for CallExpr { #[verifier::external_body] fn default() -> (r: Self) ensures no_call(r) { unimplemented!() } }
impl MemberExpr { #[verifier::external_body] pub fn dummy() -> (r: Self) { unimplemented!() } }
impl AssignExpr { #[verifier::external_body] pub fn dummy() -> (r: Self) ensures r.op == AssignOp::Assign { unimplemented!() } }
impl CondExpr { #[verifier::external_body] pub fn dummy() -> (r: Self) { unimplemented!() } }
impl BinExpr { #[verifier::external_body] pub fn dummy() -> (r: Self) ensures r.op == BinaryOp::EqEq { unimplemented!() } }
impl UnaryExpr { #[verifier::external_body] pub fn dummy() -> (r: Self) ensures r.op == UnaryOp::Minus { unimplemented!() } }
impl ParenExpr { #[verifier::external_body] pub fn dummy() -> (r: Self) { unimplemented!() } }
impl ObjectLit { #[verifier::external_body] pub fn dummy() -> (r: Self) ensures r.props@.len() == 0 { unimplemented!() } }
impl ArrayLit { #[verifier::external_body] pub fn dummy() -> (r: Self) ensures r.elems@.len() == 0 { unimplemented!() } }
impl SeqExpr { #[verifier::external_body] pub fn dummy() -> (r: Self) ensures r.exprs@.len() == 0 { unimplemented!() } }
pub trait VxToString { spec fn str_of(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: String) ensures r@ == self.str_of(); }
impl VxToString for u8 { open spec fn str_of(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for u16 { open spec fn str_of(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for u32 { open spec fn str_of(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for u64 { open spec fn str_of(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for usize { open spec fn str_of(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for str { open spec fn str_of(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for String { open spec fn str_of(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
}
use swcdummy::*;

// -------------------------------------------------- what a piece of generated code denotes
pub enum K {
  Id(Seq<char>, SyntaxContext), Num(f64), Str(Seq<char>), Null, Bool(bool), Other(Expr), Bad,
  Call, Mem(Seq<char>), Idx, Inc, PreInc, Assign, Cond, Bin(BinaryOp), Un(UnaryOp), Seq, Obj(Seq<Seq<char>>), Arr,
}
/// a tree: what the node is, and its children
pub enum J { L(K), N(K, Seq<J>) }
/// characters that stand for themselves between double quotes
pub open spec fn plain_char(c: char) -> bool { c != '"' && c != '\\' && c != '\n' && c != '\r' && c != '\u{2028}' && c != '\u{2029}' }
pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> plain_char(#[trigger] s[i]) }
pub open spec fn quoted(s: Seq<char>) -> Seq<char> { (seq!['"'] + s).push('"') }
/// a string literal is written as `raw` if that is given, else with all escapes that are needed
pub open spec fn view_str(s: Str) -> J {
  if s.raw is None || ((s.raw->0)@ == quoted(s.value@) && plain(s.value@)) { J::L(K::Str(s.value@)) } else { J::L(K::Bad) }
}
pub open spec fn num_text(t: Seq<char>, v: f64, n: nat) -> bool { t == #[trigger] dec(n) && v == int_to_f64(n as int) }
pub open spec fn view_num(x: Number) -> J {
  if x.raw is None || exists|n: nat| #[trigger] num_text((x.raw->0)@, x.value, n) { J::L(K::Num(x.value)) } else { J::L(K::Bad) }
}
#[verifier::opaque] pub open spec fn view_e(e: Expr) -> J decreases e, 0nat {
  match e {
    Expr::Paren(p) => view_e(*p.expr),
    Expr::Ident(i) => if i.optional { J::L(K::Bad) } else { J::L(K::Id(i.sym@, i.ctxt)) },
    Expr::Lit(Lit::Str(s)) => view_str(s),
    Expr::Lit(Lit::Num(x)) => view_num(x),
    Expr::Lit(Lit::Null(_)) => J::L(K::Null),
    Expr::Lit(Lit::Bool(b)) => J::L(K::Bool(b.value)),
    Expr::Call(c) => match c.callee {
      Callee::Expr(f) => if c.type_args is None { J::N(K::Call, seq![view_e(*f)] + view_args(c.args@, c.args@.len() as nat)) } else { J::L(K::Other(e)) },
      _ => J::L(K::Other(e)),
    },
    Expr::Member(m) => view_m(m),
    Expr::Update(u) => if u.op == UpdateOp::PlusPlus { J::N(if u.prefix { K::PreInc } else { K::Inc }, seq![view_e(*u.arg)]) } else { J::L(K::Other(e)) },
    Expr::Assign(a) => match a.left {
      AssignTarget::Simple(SimpleAssignTarget::Member(m)) => if a.op == AssignOp::Assign { J::N(K::Assign, seq![view_m(m), view_e(*a.right)]) } else { J::L(K::Other(e)) },
      _ => J::L(K::Other(e)),
    },
    Expr::Cond(c) => J::N(K::Cond, seq![view_e(*c.test), view_e(*c.cons), view_e(*c.alt)]),
    Expr::Bin(b) => J::N(K::Bin(b.op), seq![view_e(*b.left), view_e(*b.right)]),
    Expr::Unary(b) => J::N(K::Un(b.op), seq![view_e(*b.arg)]),
    Expr::Seq(s) => J::N(K::Seq, Seq::new(s.exprs@.len(), |i: int| if 0 <= i < s.exprs@.len() { view_e(*s.exprs@[i]) } else { J::L(K::Bad) })),
    Expr::Object(o) => J::N(K::Obj(Seq::new(o.props@.len(), |i: int| prop_key(o.props@[i]))), Seq::new(o.props@.len(), |i: int| if 0 <= i < o.props@.len() { view_p(o.props@[i]) } else { J::L(K::Bad) })),
    Expr::Array(a) => J::N(K::Arr, Seq::new(a.elems@.len(), |i: int| if 0 <= i < a.elems@.len() { view_x(a.elems@[i]) } else { J::L(K::Bad) })),
    _ => J::L(K::Other(e)),
  }
}
#[verifier::opaque] pub open spec fn view_m(m: MemberExpr) -> J decreases m, 0nat {
  match m.prop {
    MemberProp::Ident(n) => J::N(K::Mem(n.sym@), seq![view_e(*m.obj)]),
    MemberProp::Computed(c) => J::N(K::Idx, seq![view_e(*m.obj), view_e(*c.expr)]),
    _ => J::L(K::Bad),
  }
}
#[verifier::opaque] pub open spec fn view_args(a: Seq<ExprOrSpread>, n: nat) -> Seq<J> decreases a, n {
  Seq::new(n, |i: int| if 0 <= i < a.len() { if a[i].spread is None { view_e(*a[i].expr) } else { J::L(K::Bad) } } else { J::L(K::Bad) })
}
#[verifier::opaque] pub open spec fn view_x(x: Option<ExprOrSpread>) -> J decreases x, 0nat {
  match x { Some(x) => if x.spread is None { view_e(*x.expr) } else { J::L(K::Bad) }, None => J::L(K::Bad) }
}
pub open spec fn prop_key(p: PropOrSpread) -> Seq<char> {
  match p { PropOrSpread::Prop(b) => match *b { Prop::KeyValue(kv) => match kv.key { PropName::Ident(i) => i.sym@, PropName::Str(s) => s.value@, _ => Seq::empty() }, _ => Seq::empty() }, _ => Seq::empty() }
}
pub open spec fn key_ok(p: PropOrSpread) -> bool {
  match p { PropOrSpread::Prop(b) => match *b { Prop::KeyValue(kv) => match kv.key { PropName::Ident(i) => true, PropName::Str(s) => view_str(s) == J::L(K::Str(s.value@)), _ => false }, _ => false }, _ => false }
}
#[verifier::opaque] pub open spec fn view_p(p: PropOrSpread) -> J decreases p, 0nat {
  match p { PropOrSpread::Prop(b) => match *b { Prop::KeyValue(kv) => if key_ok(p) { view_e(*kv.value) } else { J::L(K::Bad) }, _ => J::L(K::Bad) }, _ => J::L(K::Bad) }
}
// shorthands
pub open spec fn jid(i: Ident) -> J { J::L(K::Id(i.sym@, i.ctxt)) }
pub open spec fn jnum(n: u32) -> J { J::L(K::Num(int_to_f64(n as int))) }
pub open spec fn mem(o: J, name: Seq<char>) -> J { J::N(K::Mem(name), seq![o]) }
pub open spec fn idx(o: J, n: u32) -> J { J::N(K::Idx, seq![o, jnum(n)]) }
/// `cov_123()`
pub open spec fn cov(f: Ident) -> J { J::N(K::Call, seq![jid(f)]) }
/// `cov_123().s[id]`, `cov_123().b[id][k]`
pub open spec fn counter(f: Ident, kind: Seq<char>, id: u32, k: Option<u32>) -> J {
  let c = idx(mem(cov(f), kind), id);
  match k { Some(k) => idx(c, k), None => c }
}
/// adds one to `place`
pub open spec fn is_inc(j: J, place: J) -> bool { j == J::N(K::Inc, seq![place]) || j == J::N(K::PreInc, seq![place]) }
pub broadcast proof fn b_paren(p: ParenExpr) ensures #[trigger] view_e(Expr::Paren(p)) == view_e(*p.expr) { reveal(view_e); reveal(view_m); reveal(view_x); reveal(view_p); reveal(pview); }
pub broadcast proof fn b_ident(i: Ident) ensures !i.optional ==> #[trigger] view_e(Expr::Ident(i)) == jid(i) { reveal(view_e); reveal(view_m); reveal(view_x); reveal(view_p); reveal(pview); }
pub broadcast proof fn b_str(s: Str) ensures #[trigger] view_e(Expr::Lit(Lit::Str(s))) == view_str(s) { reveal(view_e); reveal(view_m); reveal(view_x); reveal(view_p); reveal(pview); }
pub broadcast proof fn b_num(s: Number) ensures #[trigger] view_e(Expr::Lit(Lit::Num(s))) == view_num(s) { reveal(view_e); reveal(view_m); reveal(view_x); reveal(view_p); reveal(pview); }
pub broadcast proof fn b_null(s: Null) ensures #[trigger] view_e(Expr::Lit(Lit::Null(s))) == J::L(K::Null) { reveal(view_e); reveal(view_m); reveal(view_x); reveal(view_p); reveal(pview); }
pub broadcast proof fn b_bool(s: Bool) ensures #[trigger] view_e(Expr::Lit(Lit::Bool(s))) == J::L(K::Bool(s.value)) { reveal(view_e); reveal(view_m); reveal(view_x); reveal(view_p); reveal(pview); }
pub broadcast proof fn b_call(c: CallExpr)
  ensures c.callee is Expr && c.type_args is None && c.args@.len() == 0 ==> #[trigger] view_e(Expr::Call(c)) == J::N(K::Call, seq![view_e(*c.callee->Expr_0)]),
    c.callee is Expr && c.type_args is None && c.args@.len() == 1 && c.args@[0].spread is None ==> view_e(Expr::Call(c)) == J::N(K::Call, seq![view_e(*c.callee->Expr_0), view_e(*c.args@[0].expr)]),
{
  reveal(view_e); reveal(view_args);
  if c.callee is Expr && c.type_args is None {
    let f = view_e(*c.callee->Expr_0);
    let a = view_args(c.args@, c.args@.len() as nat);
    if c.args@.len() == 0 { assert(seq![f] + a =~= seq![f]); }
    if c.args@.len() == 1 && c.args@[0].spread is None { assert(seq![f] + a =~= seq![f, view_e(*c.args@[0].expr)]); }
  }
}
pub broadcast proof fn b_member(m: MemberExpr) ensures #[trigger] view_e(Expr::Member(m)) == view_m(m) { reveal(view_e); reveal(view_m); reveal(view_x); reveal(view_p); reveal(pview); }
pub broadcast proof fn b_m(m: MemberExpr)
  ensures m.prop is Ident ==> #[trigger] view_m(m) == mem(view_e(*m.obj), m.prop->Ident_0.sym@), m.prop is Computed ==> view_m(m) == J::N(K::Idx, seq![view_e(*m.obj), view_e(*m.prop->Computed_0.expr)]) { reveal(view_e); reveal(view_m); reveal(view_x); reveal(view_p); reveal(pview); }
pub broadcast proof fn b_update(u: UpdateExpr) ensures u.op == UpdateOp::PlusPlus ==> #[trigger] view_e(Expr::Update(u)) == J::N(if u.prefix { K::PreInc } else { K::Inc }, seq![view_e(*u.arg)]) { reveal(view_e); reveal(view_m); reveal(view_x); reveal(view_p); reveal(pview); }
pub broadcast proof fn b_assign(a: AssignExpr)
  ensures a.op == AssignOp::Assign && a.left is Simple && a.left->Simple_0 is Member ==> #[trigger] view_e(Expr::Assign(a)) == J::N(K::Assign, seq![view_m(a.left->Simple_0->Member_0), view_e(*a.right)]) { reveal(view_e); reveal(view_m); reveal(view_x); reveal(view_p); reveal(pview); }
pub broadcast proof fn b_cond(c: CondExpr) ensures #[trigger] view_e(Expr::Cond(c)) == J::N(K::Cond, seq![view_e(*c.test), view_e(*c.cons), view_e(*c.alt)]) { reveal(view_e); reveal(view_m); reveal(view_x); reveal(view_p); reveal(pview); }
pub broadcast proof fn b_bin(b: BinExpr) ensures #[trigger] view_e(Expr::Bin(b)) == J::N(K::Bin(b.op), seq![view_e(*b.left), view_e(*b.right)]) { reveal(view_e); reveal(view_m); reveal(view_x); reveal(view_p); reveal(pview); }
pub broadcast proof fn b_un(b: UnaryExpr) ensures #[trigger] view_e(Expr::Unary(b)) == J::N(K::Un(b.op), seq![view_e(*b.arg)]) { reveal(view_e); reveal(view_m); reveal(view_x); reveal(view_p); reveal(pview); }
pub open spec fn seq_items(s: SeqExpr) -> Seq<J> { Seq::new(s.exprs@.len(), |i: int| view_e(*s.exprs@[i])) }
pub broadcast proof fn b_seq(s: SeqExpr) ensures #[trigger] view_e(Expr::Seq(s)) == J::N(K::Seq, seq_items(s)) {
  reveal(view_e); reveal(view_p); reveal(pview); reveal(view_x); match view_e(Expr::Seq(s)) { J::N(_, c) => { assert(c =~= seq_items(s)); } _ => {} } }
/// key and value of a property
#[verifier::opaque] pub open spec fn pview(p: PropOrSpread) -> (Seq<char>, J) { (prop_key(p), view_p(p)) }
pub open spec fn props_view(ps: Seq<PropOrSpread>) -> Seq<(Seq<char>, J)> { Seq::new(ps.len(), |i: int| pview(ps[i])) }
pub open spec fn jobj(kv: Seq<(Seq<char>, J)>) -> J { J::N(K::Obj(Seq::new(kv.len(), |i: int| kv[i].0)), Seq::new(kv.len(), |i: int| kv[i].1)) }
pub broadcast proof fn b_obj(o: ObjectLit) ensures #[trigger] view_e(Expr::Object(o)) == jobj(props_view(o.props@)) {
  reveal(pview); let kv = props_view(o.props@);
  reveal(view_e); reveal(view_p); reveal(pview); reveal(view_x); match view_e(Expr::Object(o)) { J::N(K::Obj(k), c) => { assert(c =~= Seq::new(kv.len(), |i: int| kv[i].1)); assert(k =~= Seq::new(kv.len(), |i: int| kv[i].0)); } _ => {} } }
pub open spec fn items_view(a: Seq<Option<ExprOrSpread>>) -> Seq<J> { Seq::new(a.len(), |i: int| view_x(a[i])) }
pub broadcast proof fn b_arr(a: ArrayLit) ensures #[trigger] view_e(Expr::Array(a)) == J::N(K::Arr, items_view(a.elems@)) {
  reveal(view_e); reveal(view_p); reveal(pview); reveal(view_x); match view_e(Expr::Array(a)) { J::N(_, c) => { assert(c =~= items_view(a.elems@)); } _ => {} } }
pub broadcast proof fn b_props_push(ps: Seq<PropOrSpread>, p: PropOrSpread) ensures #[trigger] props_view(ps.push(p)) == props_view(ps).push(pview(p)) { assert(props_view(ps.push(p)) =~= props_view(ps).push(pview(p))); }
pub broadcast proof fn b_props_none(ps: Seq<PropOrSpread>) requires ps.len() == 0 ensures #[trigger] props_view(ps) == Seq::<(Seq<char>, J)>::empty() { assert(props_view(ps) =~= Seq::<(Seq<char>, J)>::empty()); }
pub broadcast proof fn b_items_push(ps: Seq<Option<ExprOrSpread>>, p: Option<ExprOrSpread>) ensures #[trigger] items_view(ps.push(p)) == items_view(ps).push(view_x(p)) { assert(items_view(ps.push(p)) =~= items_view(ps).push(view_x(p))); }
pub broadcast proof fn b_items_none(ps: Seq<Option<ExprOrSpread>>) requires ps.len() == 0 ensures #[trigger] items_view(ps) == Seq::<J>::empty() { assert(items_view(ps) =~= Seq::<J>::empty()); }
pub broadcast proof fn b_p(kv: KeyValueProp)
  ensures kv.key is Ident ==> #[trigger] pview(PropOrSpread::Prop(Box::new(Prop::KeyValue(kv)))) == (kv.key->Ident_0.sym@, view_e(*kv.value)),
    kv.key is Str && view_str(kv.key->Str_0) == J::L(K::Str(kv.key->Str_0.value@)) ==> pview(PropOrSpread::Prop(Box::new(Prop::KeyValue(kv)))) == (kv.key->Str_0.value@, view_e(*kv.value)) { reveal(view_e); reveal(view_m); reveal(view_x); reveal(view_p); reveal(pview); }
pub broadcast proof fn b_x(x: ExprOrSpread) ensures x.spread is None ==> #[trigger] view_x(Some(x)) == view_e(*x.expr) { reveal(view_e); reveal(view_m); reveal(view_x); reveal(view_p); reveal(pview); }
pub broadcast group js_views { b_paren, b_ident, b_str, b_num, b_null, b_bool, b_call, b_member, b_m, b_update, b_assign, b_cond, b_bin, b_un, b_seq, b_obj, b_arr, b_x, b_p, b_props_push, b_props_none, b_items_push, b_items_none }
