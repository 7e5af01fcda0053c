%fn create_coverage_fn_decl.rs create_coverage_fn_ident
%params value
%ret r
  ensures r.0 == fn_ident(value@), r.1 == temp_ident(value@), !r.0.optional,
%start
  broadcast use ax_atom;
%end
  proof { assert(r.0.sym@ =~= cov_name(value@)); assert(r.1.sym@ =~= cov_name(value@) + "_temp"@); }
