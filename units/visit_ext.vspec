%fn create_increase_counter_expr.rs create_increase_counter_expr
%params type_ident, id, var_name, idx
%external
%ret r
  ensures r == z_ctr(*var_name, type_ident.sym@, id, idx),

%fn create_increase_true_expr.rs create_increase_true_expr
%params id, idx, var_name, temp_var_name, expr
%external
%ret r
  ensures r == tctr(*var_name, *temp_var_name, id, idx, expr),

%fn create_coverage_fn_decl.rs create_coverage_fn_decl
%params coverage_variable, coverage_template, cov_fn_ident, file_path, coverage_data, comments, attach_debug_comment
%external
%ret r
  ensures r == cov_decl(coverage_variable@, coverage_template, *cov_fn_ident, file_path@, *coverage_data, *comments, attach_debug_comment),

%fn create_global_stmt_template.rs create_global_stmt_template
%params coverage_global_scope
%external
%ret r
  ensures r == global_of(coverage_global_scope@),
