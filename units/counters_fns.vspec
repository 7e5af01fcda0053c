%fn create_increase_counter_expr.rs create_increase_counter_expr
%params type_ident, id, var_name, idx
%ret r
  requires !var_name.optional,
  ensures is_inc(view_e(r), counter(*var_name, type_ident.sym@, id, idx)),
%start
  broadcast use js_views;

%fn create_increase_true_expr.rs validate_true_non_trivial
%params var_name, temp_var_name
%ret r
  requires !var_name.optional,
  ensures tests_truthy(view_e(r), mem(cov(*var_name), temp_var_name.sym@)),
%start
  broadcast use {js_views, truthy_views};
%end
  proof {
    lem_names();
    let pl = mem(cov(*var_name), temp_var_name.sym@);
    assert(pl->N_1[0] == cov(*var_name));
    assert(cov(*var_name) != pl);
    assert forall|n: Seq<char>, o: J| o != cov(*var_name) implies #[trigger] mem(o, n) != pl by { assert(mem(o, n)->N_1[0] == o); }
  }

%fn create_increase_true_expr.rs create_increase_true_expr
%params id, idx, var_name, temp_var_name, expr
%ret r
  requires !var_name.optional,
  ensures is_truthy_count(view_e(r), mem(cov(*var_name), temp_var_name.sym@), counter(*var_name, "bT"@, id, Some(idx)), view_e(expr)),
%start
  broadcast use js_views;
