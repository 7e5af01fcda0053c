%fn stmt_like_visitor.rs StmtVisitor::new
%params source_map, comments, cov, instrument_options, nodes, should_ignore
%ret r
  ensures r.ctx() == ctx_of(source_map, comments, *old(vxw), instrument_options, nodes@, should_ignore, Kind::Stmts), r.bef().len() == 0, *final(vxw) == *old(vxw), r.comments == comments, r.cov == cov,
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;


%fn switch_case_visitor.rs SwitchCaseVisitor::new
%params source_map, comments, cov, instrument_options, nodes, should_ignore, branch
%ret r
  ensures r.ctx() == ctx_of(source_map, comments, *old(vxw), instrument_options, nodes@, should_ignore, Kind::Switch(branch)), r.bef().len() == 0, *final(vxw) == *old(vxw), r.comments == comments, r.cov == cov,
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;


%fn logical_expr_visitor.rs LogicalExprVisitor::new
%params source_map, comments, cov, instrument_options, nodes, should_ignore, branch
%ret r
  ensures r.ctx() == ctx_of(source_map, comments, *old(vxw), instrument_options, nodes@, should_ignore, Kind::Logic(branch)), r.bef().len() == 0, *final(vxw) == *old(vxw), r.comments == comments, r.cov == cov,
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;


%fn coverage_visitor.rs CoverageVisitor::new
%params source_map, comments, cov, instrument_options, nodes, should_ignore, file_path
%ret r
  ensures r.ctx() == ctx_of(source_map, comments, *old(vxw), instrument_options, nodes@, should_ignore, Kind::Root), r.bef().len() == 0, *final(vxw) == *old(vxw), r.comments == comments, r.cov == cov, r.file_path == file_path,
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;

