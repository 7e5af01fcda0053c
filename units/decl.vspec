%opt crates=packages/swc-coverage-instrument packages/istanbul-oxide registry:swc_ecma_ast
%include ../prelude/core.vrs
%include ../prelude/swcast.vspec
%include ../prelude/js.vrs
%include ../prelude/decl0.vrs
%include ../prelude/decl.vrs
%includeext emit_top.vspec
%include idents.vspec
%include decl_fns.vspec
