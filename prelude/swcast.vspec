%include swc.vrs
%ghost
pub mod ast {
use vstd::prelude::*;
pub use super::swcbase::*;
%asttypes expr.rs: without
%asttypes stmt.rs: without
%asttypes decl.rs: without
%asttypes function.rs: without
%asttypes pat.rs: without
%asttypes prop.rs: without
%asttypes ident.rs: without
%asttypes lit.rs: without
%asttypes class.rs: without
%asttypes module.rs: without
%asttypes module_decl.rs: without
%asttypes operators.rs: without
%asttypes typescript.rs: without
%asttypes jsx.rs: without
%asttypes lib.rs: without MatchMode, EsVersion
%ghost
}
use ast::*;
