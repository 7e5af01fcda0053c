%fn types.rs ToString@BranchType::to_string
%rename vx_to_string
%ret r
  ensures r@ == bt_name(*self),

%fn create_coverage_data_object.rs create_str
%params value
%ret r
  requires plain(value@),
  ensures view_str(r) == jstr(value@), r.value@ == value@,
%start
  broadcast use js_views;
  proof { reveal_strlit("\""); }
%end
  proof { if r.raw is Some { assert((r.raw->0)@ =~= quoted(value@)); } }

%fn create_coverage_data_object.rs create_str_lit_expr
%params value
%ret r
  requires plain(value@),
  ensures view_e(r) == jstr(value@),
%start
  broadcast use js_views;

%fn create_coverage_data_object.rs create_num_lit_expr
%params value
%ret r
  ensures view_e(r) == jnum(value),
%start
  broadcast use js_views;
%end
  proof { let x = r->Lit_0->Num_0; assert(x.value == int_to_f64(value as int)); assert(x.raw is Some); assert((x.raw->0)@ == dec(value as nat)); assert(num_text((x.raw->0)@, x.value, value as nat)); }

%fn create_coverage_data_object.rs create_ident_key_value_prop
%params key, value
%ret r
  ensures pview(r) == (key.sym@, view_e(value)),
%start
  broadcast use js_views;

%fn create_coverage_data_object.rs create_str_key_value_prop
%params key, value
%ret r
  requires plain(key@),
  ensures pview(r) == (key@, view_e(value)),
%start
  broadcast use js_views;

%fn create_coverage_data_object.rs create_range_object_prop
%params value
%ret r
  ensures props_view(r@) == range_kv(*value),
%start
  broadcast use {b_obj, b_props_push, b_props_none};
%end
  proof { 
    assert forall|q: int| 0 <= q < 2 implies #[trigger] pview(r@[q]) == range_kv(*value)[q] by {
      let l = if q == 0 { value.start } else { value.end };
      let p = pview(r@[q]);
      let ps = choose|ps: Seq<PropOrSpread>| p.1 == #[trigger] jobj(props_view(ps)) && ps.len() == 2 && pview(ps[0]) == ("line"@, jnum(l.line)) && pview(ps[1]) == ("column"@, jnum(l.column));
      assert(p.1 == jobj(props_view(ps)) && ps.len() == 2 && pview(ps[0]) == ("line"@, jnum(l.line)));
      assert(props_view(ps) =~= seq![("line"@, jnum(l.line)), ("column"@, jnum(l.column))]);
    }
    assert(props_view(r@) =~= range_kv(*value));
}

%fn create_coverage_data_object.rs create_range_object_lit
%params value
%ret r
  ensures view_e(r) == jrange(*value),
%start
  broadcast use js_views;

%fn create_coverage_data_object.rs create_fn_prop
%params key, value
%ret r
  requires plain(key@), plain(value.name@),
  ensures pview(r) == (key@, jfn(*value)),
%start
  broadcast use {b_obj, b_props_push, b_props_none};
%end
  proof {
    let want = fn_kv(*value);
    let ps = choose|ps: Seq<PropOrSpread>| pview(r).1 == #[trigger] jobj(props_view(ps)) && ps.len() == 4 && pview(ps[0]) == want[0] && pview(ps[1]) == want[1] && pview(ps[2]) == want[2] && pview(ps[3]) == want[3];
    assert(pview(r).1 == jobj(props_view(ps)) && ps.len() == 4 && pview(ps[0]) == want[0]);
    assert(props_view(ps) =~= want);
  }

%fn create_coverage_data_object.rs create_branch_vec_prop
%params value
%ret r
  ensures view_e(r) == jnums(value@),
%start
  broadcast use js_views;
%loop 0
  its0 == vec_refs(value@), items_view(acc@) == jnums_n(value@, it0.pos() as nat),
%before 0
  proof { assert(items_view(acc@) =~= jnums_n(value@, 0)); }
%loopend 0
  proof { assert(items_view(acc@) =~= jnums_n(value@, it0.pos() as nat)); }

%fn create_coverage_data_object.rs create_branch_prop
%params key, value
%ret r
  requires plain(key@),
  ensures pview(r) == (key@, jbranch(*value)),
%start
  broadcast use {js_views, lem_plain_bt};
  let ghost locs = value.locations@;
%loop 0
  its0 == vec_refs(locs), items_view(acc@) == jranges_n(locs, it0.pos() as nat),
%before 0
  proof { assert(items_view(acc@) =~= jranges_n(locs, 0)); }
%loopend 0
  proof { assert(items_view(acc@) =~= jranges_n(locs, it0.pos() as nat)); }
