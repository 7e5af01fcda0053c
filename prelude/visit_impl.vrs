pub open spec fn ctx_of<C: Comments, S: SourceMapper>(s: Arc<S>, c: C, w: World, opts: InstrumentOptions, nodes: Seq<Node>, ign: Option<IgnoreScope>, kind: Kind) -> Ctx {
  Ctx { env: env_of(c, s), ign, nodes, opts, kind, f: fn_ident(w.cov.path()), t: temp_ident(w.cov.path()) }
}
impl<C: Clone + Comments, S: SourceMapper> VxVisitor for StmtVisitor<C, S> {
  open spec fn ctx(&self) -> Ctx { Ctx { env: env_of(self.comments, self.source_map), ign: self.should_ignore, nodes: self.nodes@, opts: self.instrument_options, kind: Kind::Stmts, f: self.cov_fn_ident, t: self.cov_fn_temp_ident } }
  open spec fn bef(&self) -> Seq<Stmt> { self.before@ }
  open spec fn same(&self, o: Self) -> bool { self.comments == o.comments && self.cov == o.cov }
}
impl<C: Clone + Comments, S: SourceMapper> VxVisitor for SwitchCaseVisitor<C, S> {
  open spec fn ctx(&self) -> Ctx { Ctx { env: env_of(self.comments, self.source_map), ign: self.should_ignore, nodes: self.nodes@, opts: self.instrument_options, kind: Kind::Switch(self.branch), f: self.cov_fn_ident, t: self.cov_fn_temp_ident } }
  open spec fn bef(&self) -> Seq<Stmt> { self.before@ }
  open spec fn same(&self, o: Self) -> bool { self.comments == o.comments && self.cov == o.cov }
}
impl<C: Clone + Comments, S: SourceMapper> VxVisitor for LogicalExprVisitor<C, S> {
  open spec fn ctx(&self) -> Ctx { Ctx { env: env_of(self.comments, self.source_map), ign: self.should_ignore, nodes: self.nodes@, opts: self.instrument_options, kind: Kind::Logic(self.branch), f: self.cov_fn_ident, t: self.cov_fn_temp_ident } }
  open spec fn bef(&self) -> Seq<Stmt> { self.before@ }
  open spec fn same(&self, o: Self) -> bool { self.comments == o.comments && self.cov == o.cov }
}
impl<C: Clone + Comments, S: SourceMapper> VxVisitor for CoverageVisitor<C, S> {
  open spec fn ctx(&self) -> Ctx { Ctx { env: env_of(self.comments, self.source_map), ign: self.should_ignore, nodes: self.nodes@, opts: self.instrument_options, kind: Kind::Root, f: self.cov_fn_ident, t: self.cov_fn_temp_ident } }
  open spec fn bef(&self) -> Seq<Stmt> { self.before@ }
  open spec fn same(&self, o: Self) -> bool { self.comments == o.comments && self.cov == o.cov && self.file_path == o.file_path }
}
