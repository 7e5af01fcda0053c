%fn directives.rs count_directives
%params stmts
%ret r
  ensures is_prologue(stmts@, r as int), r == prologue(stmts@),
%locals index=0
%loop 0
  invariant index <= stmts.len(), forall|i: int| 0 <= i < index ==> (#[trigger] stmts@[i]).dir(),
  decreases stmts.len() - index,
%forloop 0
  invariant_except_break index == $i.pos(),
  invariant 0 <= $i.pos() <= $i@.len(), $i@ == $s, $s.len() == stmts@.len(), $s.len() == stmts.len(), stmts.len() <= usize::MAX, forall|i: int| 0 <= i < $s.len() ==> *(#[trigger] $s[i]) == stmts@[i],
    index <= $i.pos(), forall|i: int| 0 <= i < index ==> (#[trigger] stmts@[i]).dir(),
  ensures index <= stmts@.len(), forall|i: int| 0 <= i < index ==> (#[trigger] stmts@[i]).dir(), index < stmts@.len() ==> !stmts@[index as int].dir(),
  decreases $i@.len() - $i.pos(),
%after 0
  proof { lem_prologue(stmts@, index as int); }

%fn directives.rs insert_after_directives
%params stmts, stmt
  ensures final(stmts)@ == old(stmts)@.insert(prologue(old(stmts)@) as int, stmt),

%fn hint_comments.rs COMMENT_FILE_REGEX
%ret r
  ensures re_pat(r) == file_pat(),

%fn hint_comments.rs COMMENT_RE
%ret r
  ensures re_pat(r) == hint_pat(),

%fn hint_comments.rs should_ignore_file
%params comments, program
%ret r
  ensures r == file_hint(*comments, program_span(*program)),
%loop 0
  any_opt(its0, it0.pos()) == acc,
%loop 1
  any_comment(its1, it1.pos()) == acc,
%loopstart 1
  proof { ax_file_pat(its1[it1.pos() - 1].text@); lem_any_step(its1, it1.pos() - 1); }
%loopstart 0
  let ghost o0 = *its0[it0.pos() - 1];
  proof { if o0 is Some { lem_any_comment(co(o0)->0); assert(vec_refs(co(o0)->0).len() == co(o0)->0.len()); } lem_any_opt(its0, it0.pos() - 1); }
%after 0
  proof { let w = its0; assert(*w[0] == __vx_src1@[0]); assert(*w[1] == __vx_src1@[1]);  assert(*w[2] == __vx_src1@[2]);  assert(*w[3] == __vx_src1@[3]); }

%fn hint_comments.rs lookup_hint_comments
%params comments, span
%ret r
  ensures odv(r) == (match span { Some(s) => hint_at(*comments, *s), None => None }),
%loop 0
  odv(acc) == first_hint(crefs(its0).take(it0.pos())),
%loop 1
  odv(acc) == first_hint(crefs(its1).take(it1.pos())),
%loopstart 0
  proof { let t = its0[it0.pos() - 1].text@; ax_hints(t); lem_first(crefs(its0), it0.pos() - 1); }
%loopstart 1
  proof { let t = its1[it1.pos() - 1].text@; ax_hints(t); lem_first(crefs(its1), it1.pos() - 1); }
%before 0
  proof { lem_crefs(h@); assert(crefs(its0).take(0).len() == 0); }
%before 1
  proof { lem_crefs(l@); assert(crefs(its1).take(0).len() == 0); }
%after 0
  proof { assert(crefs(its0).take(its0.len() as int) =~= crefs(its0)); }
%after 1
  proof { assert(crefs(its1).take(its1.len() as int) =~= crefs(its1)); }

%fn hint_comments.rs should_ignore
%params comments, span
%ret r
  ensures r == (match span { Some(s) => scope_of(hint_at(*comments, *s)), None => None }),

%fn lookup_range.rs get_range_from_span
%params source_map, span
%ret r
  ensures r == range_of(source_map.inner(), *span),
