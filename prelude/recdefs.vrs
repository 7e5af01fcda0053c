// -------------------------------------------------- what is recorded, without the counters
pub struct FnE { pub name: Seq<char>, pub decl: Range, pub loc: Range }
pub struct BrE { pub kind: BranchType, pub loc: Option<Range>, pub paths: Seq<Range>, pub truthy: bool }
pub struct Rec { pub s: Seq<Range>, pub f: Seq<FnE>, pub b: Seq<BrE> }
pub open spec fn anonymous(f: u32) -> Seq<char> { seq!['(','a','n','o','n','y','m','o','u','s','_'] + dec(f as nat) + seq![')'] }
pub open spec fn name_of(name: Option<String>, id: u32) -> Seq<char> { match name { Some(n) => n@, None => anonymous(id) } }
pub open spec fn rec_stmt(a: Rec, loc: Range) -> Rec { Rec { s: a.s.push(loc), ..a } }
pub open spec fn rec_fn(a: Rec, name: Seq<char>, decl: Range, loc: Range) -> Rec { Rec { f: a.f.push(FnE { name, decl, loc }), ..a } }
pub open spec fn rec_branch(a: Rec, kind: BranchType, loc: Range, logic: bool) -> Rec { Rec { b: a.b.push(BrE { kind, loc: Some(loc), paths: Seq::empty(), truthy: kind == BranchType::BinaryExpr && logic }), ..a } }
pub open spec fn rec_path(a: Rec, b: int, loc: Range) -> Rec { Rec { b: a.b.update(b, BrE { paths: a.b[b].paths.push(loc), ..a.b[b] }), ..a } }
