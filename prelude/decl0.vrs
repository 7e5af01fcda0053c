// -------------------------------------------------- what the generated code is made with
#[verifier::external_body] pub struct DefaultHasher { x: u8 }
pub uninterp spec fn hash_bits(h: DefaultHasher) -> u64;
pub uninterp spec fn hash_new() -> DefaultHasher;
pub uninterp spec fn hash_add(h: DefaultHasher, t: Seq<char>) -> DefaultHasher;
impl DefaultHasher {
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r == hash_new() { unimplemented!() }
  #[verifier::external_body] pub fn finish(&self) -> (r: u64) ensures r == hash_bits(*self) { unimplemented!() }
}
pub trait VxHash { spec fn h_chars(&self) -> Seq<char>; fn hash(&self, h: &mut DefaultHasher) ensures *final(h) == hash_add(*old(h), self.h_chars()); }
impl VxHash for String { open spec fn h_chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn hash(&self, h: &mut DefaultHasher) { unimplemented!() } }
impl VxHash for str { open spec fn h_chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn hash(&self, h: &mut DefaultHasher) { unimplemented!() } }
pub uninterp spec fn json_of<T>(x: T) -> Seq<char>;
pub mod serde_json {
  use vstd::prelude::*;
  #[verifier::external_body] pub struct Error { x: u8 }
  impl core::fmt::Debug for Error { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
  #[verifier::external_body] pub fn to_string<T>(x: &T) -> (r: Result<String, Error>) ensures r is Ok, (r->Ok_0)@ == super::json_of(*x) { unimplemented!() }
}
/// `var NAME = VALUE`
pub open spec fn is_var(s: Stmt, name: Ident, value: Expr) -> bool {
  match s { Stmt::Decl(Decl::Var(v)) => v.kind == VarDeclKind::Var && !v.declare && v.decls@.len() == 1 && v.decls@[0].init is None && match v.decls@[0].name {
      Pat::Assign(a) => *a.right == value && match *a.left { Pat::Ident(b) => b.id == name && b.type_ann is None, _ => false },
      _ => false,
    }, _ => false }
}
impl VarDecl { #[verifier::external_body] pub fn dummy() -> (r: Self) ensures r.ctxt == no_ctxt(), r.kind == VarDeclKind::Var, !r.declare, r.decls@.len() == 0 { unimplemented!() } }
/// the text under the key `hash` of an object literal that ends with it
pub open spec fn hash_of(d: J) -> Option<Seq<char>> {
  match d { J::N(K::Obj(ks), xs) => if ks.len() > 0 && xs.len() == ks.len() && ks.last() == "hash"@ { match xs.last() { J::L(K::Str(t)) => Some(t), _ => None } } else { None }, _ => None }
}
