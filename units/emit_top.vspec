%fn create_assignment_stmt.rs create_assignment_stmt
%params var_decl_ident, value
%ret r
  ensures is_var(r, *var_decl_ident, value),

%fn create_coverage_data_object.rs create_coverage_data_object
%params coverage_data
%ret r
  requires plain_names(*coverage_data),
  ensures view_e(r.1) == jobj(cov_kv(*coverage_data, r.0@)), r.0@ == dec(hash_bits(hash_add(hash_new(), json_of(*coverage_data))) as nat),
%start
  broadcast use {b_obj, b_arr, b_x, b_str, b_num, b_null, b_bool, b_props_push, b_props_none, b_items_push, b_items_none, lem_plain_dec};
  let ghost c = *coverage_data;
  let ghost bt = match c.b_t { Some(t) => t@, None => Seq::empty() };
  let ghost sm = c.input_source_map->Some_0;
  let ghost srcs = sm.sources@;
  let ghost cont = match sm.sources_content { Some(t) => t@, None => Seq::empty() };
  let ghost names = sm.names@;
%loop 0
  its0 == im_refs(c.statement_map@), props_view(acc@) == ents_n(c.statement_map@, |v: Range| jrange(v), it0.pos() as nat),
%before 0
  proof { assert(props_view(acc@) =~= ents_n(c.statement_map@, |v: Range| jrange(v), 0)); }
%loopend 0
  proof { assert(props_view(acc@) =~= ents_n(c.statement_map@, |v: Range| jrange(v), it0.pos() as nat)); }
%loop 1
  its1 == im_refs(c.fn_map@), props_view(acc@) == ents_n(c.fn_map@, |v: Function| jfn(v), it1.pos() as nat),
%before 1
  proof { assert(props_view(acc@) =~= ents_n(c.fn_map@, |v: Function| jfn(v), 0)); }
%loopend 1
  proof { assert(props_view(acc@) =~= ents_n(c.fn_map@, |v: Function| jfn(v), it1.pos() as nat)); }
%loop 2
  its2 == im_refs(c.branch_map@), props_view(acc@) == ents_n(c.branch_map@, |v: Branch| jbranch(v), it2.pos() as nat),
%before 2
  proof { assert(props_view(acc@) =~= ents_n(c.branch_map@, |v: Branch| jbranch(v), 0)); }
%loopend 2
  proof { assert(props_view(acc@) =~= ents_n(c.branch_map@, |v: Branch| jbranch(v), it2.pos() as nat)); }
%loop 3
  its3 == im_refs(c.s@), props_view(acc@) == ents_n(c.s@, |v: u32| jnum(v), it3.pos() as nat),
%before 3
  proof { assert(props_view(acc@) =~= ents_n(c.s@, |v: u32| jnum(v), 0)); }
%loopend 3
  proof { assert(props_view(acc@) =~= ents_n(c.s@, |v: u32| jnum(v), it3.pos() as nat)); }
%loop 4
  its4 == im_refs(c.f@), props_view(acc@) == ents_n(c.f@, |v: u32| jnum(v), it4.pos() as nat),
%before 4
  proof { assert(props_view(acc@) =~= ents_n(c.f@, |v: u32| jnum(v), 0)); }
%loopend 4
  proof { assert(props_view(acc@) =~= ents_n(c.f@, |v: u32| jnum(v), it4.pos() as nat)); }
%loop 5
  its5 == im_refs(c.b@), props_view(acc@) == ents_n(c.b@, |v: Vec<u32>| jnums(v@), it5.pos() as nat),
%before 5
  proof { assert(props_view(acc@) =~= ents_n(c.b@, |v: Vec<u32>| jnums(v@), 0)); }
%loopend 5
  proof { assert(props_view(acc@) =~= ents_n(c.b@, |v: Vec<u32>| jnums(v@), it5.pos() as nat)); }
%loop 6
  its6 == im_refs(bt), props_view(acc@) == ents_n(bt, |v: Vec<u32>| jnums(v@), it6.pos() as nat),
%before 6
  proof { assert(props_view(acc@) =~= ents_n(bt, |v: Vec<u32>| jnums(v@), 0)); }
%loopend 6
  proof { assert(props_view(acc@) =~= ents_n(bt, |v: Vec<u32>| jnums(v@), it6.pos() as nat)); }
%loop 7
  its7 == vec_refs(srcs), items_view(acc@) == jstrs_n(srcs, it7.pos() as nat),
%before 7
  proof { assert(items_view(acc@) =~= jstrs_n(srcs, 0)); }
%loopend 7
  proof { assert(items_view(acc@) =~= jstrs_n(srcs, it7.pos() as nat)); }
%loop 8
  its8 == vec_refs(cont), items_view(acc@) == jostrs_n(cont, it8.pos() as nat),
%before 8
  proof { assert(items_view(acc@) =~= jostrs_n(cont, 0)); }
%loopend 8
  proof { assert(items_view(acc@) =~= jostrs_n(cont, it8.pos() as nat)); }
%loop 9
  its9 == vec_refs(names), items_view(acc@) == jstrs_n(names, it9.pos() as nat),
%before 9
  proof { assert(items_view(acc@) =~= jstrs_n(names, 0)); }
%loopend 9
  proof { assert(items_view(acc@) =~= jstrs_n(names, it9.pos() as nat)); }
