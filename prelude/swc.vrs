/// swc's leaf types
pub mod swcbase {
use vstd::prelude::*;
#[derive(Clone, Copy)]
pub struct BytePos(pub u32);
#[derive(Clone, Copy)]
pub struct Span { pub lo: BytePos, pub hi: BytePos }
pub const DUMMY_SP: Span = Span { lo: BytePos(0), hi: BytePos(0) };
#[verifier::external_body] #[derive(Clone, Copy)] pub struct SyntaxContext { x: u32 }
pub uninterp spec fn no_ctxt() -> SyntaxContext;
impl SyntaxContext { #[verifier::external_body] pub fn empty() -> (r: Self) ensures r == no_ctxt() { unimplemented!() } }
impl Default for SyntaxContext { #[verifier::external_body] fn default() -> (r: Self) ensures r == no_ctxt() { unimplemented!() } }
#[verifier::external_body] pub struct Atom { x: u8 }
impl View for Atom { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Clone for Atom { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct BigIntValue { x: u8 }
}
use swcbase::*;
