%opt crates=packages/swc-coverage-instrument packages/istanbul-oxide registry:swc_ecma_ast
%include ../prelude/core.vrs
%include ../prelude/swcast.vspec
%include ../prelude/js.vrs
%types range.rs: Location, Range
%types hint_comments.rs: IgnoreScope
%include ../prelude/sites.vrs
%include ../prelude/sites2.vrs
%include sites_fns.vspec
