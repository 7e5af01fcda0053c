%fn create_global_stmt_template.rs create_global_stmt_template
%params coverage_global_scope
%ret r
  ensures sets_global(r, coverage_global_scope@),
%start
  broadcast use {js_views, lem_new, lem_call0};
%end
  proof {
    let (n, e) = choose|n: Ident, e: Expr| #[trigger] is_var(r, n, e) && var(n) == ("global"@, no_ctxt());
    let x = view_e(e)->N_1[0]->L_0->Other_0;
    assert(view_e(e) == J::N(K::Call, seq![J::L(K::Other(x))]));
    assert(scope_call(x, coverage_global_scope@));
  }

%fn create_coverage_fn_decl.rs create_coverage_fn_decl
%params coverage_variable, coverage_template, cov_fn_ident, file_path, coverage_data, comments, attach_debug_comment
%ret r
  requires plain_names(*coverage_data),
  ensures
    forall|scope: Seq<char>| #[trigger] sets_global(coverage_template, scope) ==> exists|h: Seq<char>| #[trigger] is_data(*coverage_data, h) && cov_fn(r, Key { scope, name: coverage_variable@ }, file_path@, h, data_of(*coverage_data, h), *cov_fn_ident), // @load
    forall|scope: Seq<char>| #[trigger] sets_global(coverage_template, scope) ==> exists|h: Seq<char>| #[trigger] is_data(*coverage_data, h) && cov_data(r, Key { scope, name: coverage_variable@ }, file_path@, data_of(*coverage_data, h)), // @data
%start
  broadcast use {js_views, js_run};
%end
  proof {
    lem_var_names();
    assert(is_data(*coverage_data, hash@));
    assert forall|scope: Seq<char>| #[trigger] sets_global(coverage_template, scope) implies cov_data(r, Key { scope, name: coverage_variable@ }, file_path@, data_of(*coverage_data, hash@)) by { // @data
      let k = Key { scope, name: coverage_variable@ };
      assert forall|s0: Js| !entries(s0, k).contains_key(file_path@) implies { let m = entries(#[trigger] run(body_of(r), enter(s0)), k); m.contains_key(file_path@) && m[file_path@].1 == data_of(*coverage_data, hash@) } by { // @data
        let s1 = run(body_of(r), enter(s0));
        assert(s1.ret is Some); // @data
      }
    }
    assert forall|scope: Seq<char>| #[trigger] sets_global(coverage_template, scope) implies cov_fn(r, Key { scope, name: coverage_variable@ }, file_path@, hash@, data_of(*coverage_data, hash@), *cov_fn_ident) by { // @load
      let k = Key { scope, name: coverage_variable@ };
      assert forall|s0: Js| loaded(s0, #[trigger] run(body_of(r), enter(s0)), k, file_path@, hash@, data_of(*coverage_data, hash@), *cov_fn_ident) by { // @load
        let s1 = run(body_of(r), enter(s0));
        assert(s1.ret is Some); // @load
      }
    }
  }
