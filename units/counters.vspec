%opt crates=packages/swc-coverage-instrument registry:swc_ecma_ast
%include ../prelude/core.vrs
%include ../prelude/swcast.vspec
%include ../prelude/js.vrs
%include ../prelude/truthy.vrs
%include counters_fns.vspec
