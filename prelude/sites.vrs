// -------------------------------------------------- where code is, which hints precede it, directives
pub mod vxsites {
use vstd::prelude::*;
use super::vxcore::*;
use super::swcbase::*;
use super::ast::*;
impl VxText for Atom { open spec fn chars(&self) -> Seq<char> { self@ } }
#[verifier::external_body] pub fn vx_text_eq<A: VxText + ?Sized>(a: &A, b: &str) -> (r: bool) ensures r == (a.chars() == b@) { unimplemented!() }
pub trait VxTrim { spec fn tc(&self) -> Seq<char>; fn vx_trim(&self) -> (r: &str) ensures r@ == trimmed(self.tc()); }
impl VxTrim for str { open spec fn tc(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() } }
impl VxTrim for String { open spec fn tc(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() } }
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub trait VxAsDeref { spec fn od(&self) -> Option<Seq<char>>; fn vx_as_deref(&self) -> (r: Option<&str>) ensures r is Some == self.od() is Some, r is Some ==> (r->0)@ == self.od()->0; }
pub open spec fn odv(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
impl VxAsDeref for Option<String> { open spec fn od(&self) -> Option<Seq<char>> { odv(*self) } #[verifier::external_body] fn vx_as_deref(&self) -> (r: Option<&str>) { unimplemented!() } }
pub trait VxStrM { spec fn sm(&self) -> Seq<char>; fn vx_as_str(&self) -> (r: &str) ensures r@ == self.sm(); }

// --- comments (swc_common::comments::Comments): the comments in front of and behind a position
#[verifier::external_body] pub struct CommentKind { x: u8 }
pub struct Comment { pub kind: CommentKind, pub span: Span, pub text: Atom }
pub trait Comments {
  spec fn leading(&self, p: BytePos) -> Option<Seq<Comment>>;
  spec fn trailing(&self, p: BytePos) -> Option<Seq<Comment>>;
  fn get_leading(&self, p: BytePos) -> (r: Option<Vec<Comment>>) ensures r is Some == self.leading(p) is Some, r is Some ==> (r->0)@ == self.leading(p)->0;
  fn get_trailing(&self, p: BytePos) -> (r: Option<Vec<Comment>>) ensures r is Some == self.trailing(p) is Some, r is Some ==> (r->0)@ == self.trailing(p)->0;
}
/// the text of the comments at a position
pub open spec fn texts(o: Option<Seq<Comment>>) -> Seq<Seq<char>> { match o { Some(s) => s.map_values(|c: Comment| c.text@), None => Seq::empty() } }

// --- the regular expressions that are used, by their text (trusted: what they accept)
#[verifier::external_body] pub struct Regexp { x: u8 }
#[verifier::external_body] pub struct RegexError { x: u8 }
impl core::fmt::Debug for RegexError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
#[verifier::external_body] pub struct Captures<'a> { x: &'a u8 }
#[verifier::external_body] pub struct Match<'a> { x: &'a u8 }
pub uninterp spec fn re_pat(r: Regexp) -> Seq<char>;
/// the text of the groups of the first match, none if there is no match
pub uninterp spec fn re_groups(pat: Seq<char>, s: Seq<char>) -> Option<spec_fn(int) -> Option<Seq<char>>>;
pub uninterp spec fn cap_groups(c: Captures<'_>) -> spec_fn(int) -> Option<Seq<char>>;
pub uninterp spec fn match_text(m: Match<'_>) -> Seq<char>;
impl Regexp {
  #[verifier::external_body] pub fn new(p: &str) -> (r: Result<Self, RegexError>) ensures (p@ == file_pat() || p@ == hint_pat()) ==> r is Ok, r is Ok ==> re_pat(r->Ok_0) == p@ { unimplemented!() }
  #[verifier::external_body] pub fn is_match<T: VxText + ?Sized>(&self, t: &T) -> (r: bool) ensures r == (re_groups(re_pat(*self), t.chars()) is Some) { unimplemented!() }
  #[verifier::external_body] pub fn captures<'a, T: VxText + ?Sized>(&self, t: &'a T) -> (r: Option<Captures<'a>>)
    ensures r is Some == re_groups(re_pat(*self), t.chars()) is Some, r is Some ==> cap_groups(r->0) == re_groups(re_pat(*self), t.chars())->0 { unimplemented!() }
}
impl<'a> Captures<'a> { #[verifier::external_body] pub fn get(&self, i: usize) -> (r: Option<Match<'a>>)
    ensures r is Some == cap_groups(*self)(i as int) is Some, r is Some ==> match_text(r->0) == cap_groups(*self)(i as int)->0 { unimplemented!() } }
impl<'a> VxStrM for Match<'a> { open spec fn sm(&self) -> Seq<char> { match_text(*self) } #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { unimplemented!() } }
pub open spec fn file_pat() -> Seq<char> { r"^\s*istanbul\s+ignore\s+(file)(\W|$)"@ }
pub open spec fn hint_pat() -> Seq<char> { r"^\s*istanbul\s+ignore\s+(if|else|next)(\W|$)"@ }
pub uninterp spec fn is_ws(c: char) -> bool;
pub uninterp spec fn is_word(c: char) -> bool;
pub open spec fn all_ws(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_ws(#[trigger] s[i]) }
/// t = white space, "istanbul", white space, "ignore", white space, kind, and then no word character
pub open spec fn says(t: Seq<char>, kind: Seq<char>) -> bool {
  exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>| #[trigger] all_ws(a) && #[trigger] all_ws(b) && #[trigger] all_ws(c) && b.len() > 0 && c.len() > 0
    && t == a + "istanbul"@ + b + "ignore"@ + c + kind + d && #[trigger] ends_word(d)
}
pub open spec fn ends_word(d: Seq<char>) -> bool { d.len() == 0 || !is_word(d[0]) }
/// what a comment asks for
pub open spec fn hint_of(t: Seq<char>) -> Option<Seq<char>> {
  if says(t, "if"@) { Some("if"@) } else if says(t, "else"@) { Some("else"@) } else if says(t, "next"@) { Some("next"@) } else { None }
}
pub axiom fn ax_file_pat(t: Seq<char>) ensures re_groups(file_pat(), t) is Some == says(t, "file"@);
pub axiom fn ax_hint_pat(t: Seq<char>) ensures re_groups(hint_pat(), t) is Some == hint_of(t) is Some, hint_of(t) is Some ==> (re_groups(hint_pat(), t)->0)(1) == hint_of(t);
/// these words have no white space around them
pub axiom fn ax_trim() ensures trimmed("if"@) == "if"@, trimmed("else"@) == "else"@, trimmed("next"@) == "next"@;
pub proof fn ax_hints(t: Seq<char>) ensures re_groups(hint_pat(), t) is Some == hint_of(t) is Some, hint_of(t) is Some ==> (re_groups(hint_pat(), t)->0)(1) == hint_of(t) && trimmed(hint_of(t)->0) == hint_of(t)->0
{ ax_hint_pat(t); ax_trim(); }
/// the first of the comments that is a hint
pub open spec fn first_hint(s: Seq<Seq<char>>) -> Option<Seq<char>> decreases s.len() {
  if s.len() == 0 { None } else { match first_hint(s.drop_last()) { Some(h) => Some(h), None => hint_of(s.last()) } }
}
/// the hint in front of a span: comments attached to its end (as swc does for some nodes) win
pub open spec fn hint_at<C: Comments>(c: C, sp: Span) -> Option<Seq<char>> {
  match first_hint(texts(c.leading(sp.hi))) { Some(h) => Some(h), None => first_hint(texts(c.leading(sp.lo))) }
}
pub open spec fn any_says(s: Seq<Seq<char>>, kind: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] says(s[i], kind) }
pub open spec fn file_hint<C: Comments>(c: C, sp: Span) -> bool {
  any_says(texts(c.leading(sp.lo)), "file"@) || any_says(texts(c.leading(sp.hi)), "file"@) || any_says(texts(c.trailing(sp.lo)), "file"@) || any_says(texts(c.trailing(sp.hi)), "file"@)
}
pub open spec fn program_span(p: Program) -> Span { match p { Program::Module(m) => m.span, Program::Script(s) => s.span } }
pub proof fn lem_first(s: Seq<Seq<char>>, n: int) requires 0 <= n < s.len()
  ensures first_hint(s.take(n + 1)) == (match first_hint(s.take(n)) { Some(h) => Some(h), None => hint_of(s[n]) }), first_hint(s.take(0)) is None
{ assert(s.take(n + 1).drop_last() =~= s.take(n)); assert(s.take(n + 1).last() == s[n]); }

// --- positions (swc_common::SourceMapper)
pub struct CharPos(pub usize);
/// line from 1, column from 0
pub struct Loc { pub line: usize, pub col: CharPos }
pub trait SourceMapper: Sized { spec fn loc(&self, p: BytePos) -> Loc; }
#[verifier::external_body] #[verifier::reject_recursive_types(S)] pub struct Arc<S> { s: core::marker::PhantomData<S> }
impl<S> Clone for Arc<S> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<S> Arc<S> { pub uninterp spec fn inner(&self) -> S; }
impl<S: SourceMapper> Arc<S> { #[verifier::external_body] pub fn lookup_char_pos(&self, p: BytePos) -> (r: Loc) ensures r == self.inner().loc(p) { unimplemented!() } }

// --- directives (swc_ecma_utils::IsDirective)
pub open spec fn str_stmt(s: Stmt) -> bool { match s { Stmt::Expr(e) => (match *e.expr { Expr::Lit(Lit::Str(_)) => true, _ => false }), _ => false } }
pub trait IsDirective: Sized { spec fn dir(&self) -> bool; fn directive_continue(&self) -> (r: bool) ensures r == self.dir(); }
impl IsDirective for Stmt { open spec fn dir(&self) -> bool { str_stmt(*self) } #[verifier::external_body] fn directive_continue(&self) -> (r: bool) { unimplemented!() } }
impl IsDirective for ModuleItem { open spec fn dir(&self) -> bool { match *self { ModuleItem::Stmt(s) => str_stmt(s), _ => false } } #[verifier::external_body] fn directive_continue(&self) -> (r: bool) { unimplemented!() } }
/// the number of directives at the start
pub open spec fn prologue<T: IsDirective>(s: Seq<T>) -> nat decreases s.len() {
  if s.len() > 0 && s[0].dir() { 1 + prologue(s.drop_first()) } else { 0 }
}
pub open spec fn is_prologue<T: IsDirective>(s: Seq<T>, n: int) -> bool { 0 <= n <= s.len() && (forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).dir()) && (n < s.len() ==> !s[n].dir()) }
pub proof fn lem_prologue<T: IsDirective>(s: Seq<T>, n: int) requires is_prologue(s, n) ensures prologue(s) == n decreases s.len()
{
  if n > 0 { assert(s[0].dir()); let t = s.drop_first(); assert forall|i: int| 0 <= i < n - 1 implies (#[trigger] t[i]).dir() by { assert(t[i] == s[i + 1]); } if n < s.len() { assert(t[n - 1] == s[n]); } lem_prologue(t, n - 1); }
}
}
use vxsites::*;
