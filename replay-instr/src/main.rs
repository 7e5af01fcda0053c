//! Runs the compiled instrumenter for the oracles in /verif/replay-js.
//! `replay-instr serve`: one JSON request per line on stdin, one JSON answer per line.
mod erase;
use serde::Deserialize;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
use swc_core::common::comments::{Comment, SingleThreadedComments};
use std::{cell::RefCell, rc::Rc};
use swc_core::common::source_map::FileLinesResult;
use swc_core::common::{BytePos, FileName, Globals, Loc, Mark, SourceMap, SourceMapper, Span, SpanSnippetError, GLOBALS};
use swc_core::ecma::ast::*;
use swc_core::ecma::codegen::{text_writer::JsWriter, Emitter};
use swc_core::ecma::parser::{lexer::Lexer, EsSyntax, Parser, StringInput, Syntax, TsSyntax};
use swc_core::ecma::transforms::base::{fixer::fixer, resolver};
use swc_core::ecma::transforms::typescript::strip;
use swc_core::ecma::visit::visit_mut_pass;
use swc_coverage_instrument::{create_coverage_instrumentation_visitor, InstrumentOptions};

/// the instrumenter takes its source map in an `Arc`, the emitter in an `Rc`
struct Cm(Rc<SourceMap>);
impl SourceMapper for Cm {
    fn lookup_char_pos(&self, pos: BytePos) -> Loc {
        SourceMapper::lookup_char_pos(&*self.0, pos)
    }
    fn span_to_lines(&self, sp: Span) -> FileLinesResult {
        SourceMapper::span_to_lines(&*self.0, sp)
    }
    fn span_to_string(&self, sp: Span) -> String {
        SourceMapper::span_to_string(&*self.0, sp)
    }
    fn span_to_filename(&self, sp: Span) -> Rc<FileName> {
        SourceMapper::span_to_filename(&*self.0, sp)
    }
    fn merge_spans(&self, a: Span, b: Span) -> Option<Span> {
        SourceMapper::merge_spans(&*self.0, a, b)
    }
    fn call_span_if_macro(&self, sp: Span) -> Span {
        sp
    }
    fn doctest_offset_line(&self, line: usize) -> usize {
        line
    }
    fn span_to_snippet(&self, sp: Span) -> Result<String, Box<SpanSnippetError>> {
        SourceMapper::span_to_snippet(&*self.0, sp)
    }
}

#[derive(Deserialize)]
#[serde(default)]
pub struct Req {
    pub code: String,
    pub filename: String,
    /// script | module | ts | tsx | jsx | ext
    pub mode: String,
    pub options: Value,
    pub erase: bool,
    /// only parse and print
    pub plain: bool,
    /// say whether the program came out as it went in
    pub untouched: bool,
}
impl Default for Req {
    fn default() -> Self {
        Req { code: String::new(), filename: "f.js".into(), mode: "script".into(), options: json!({}), erase: false, plain: false, untouched: false }
    }
}

pub fn parse(cm: &Rc<SourceMap>, code: &str, mode: &str, comments: &SingleThreadedComments) -> Result<Program, String> {
    let fm = cm.new_source_file(FileName::Custom("in".into()).into(), code.to_string());
    let syn = match mode {
        "ts" => Syntax::Typescript(TsSyntax { decorators: true, ..Default::default() }),
        "tsx" => Syntax::Typescript(TsSyntax { tsx: true, decorators: true, ..Default::default() }),
        // everything the parser can be told to accept
        "ext" => Syntax::Es(EsSyntax { jsx: true, decorators: true, decorators_before_export: true, import_attributes: true, allow_super_outside_method: true, allow_return_outside_function: true, auto_accessors: true, explicit_resource_management: true, ..Default::default() }),
        _ => Syntax::Es(EsSyntax { jsx: mode == "jsx", ..Default::default() }),
    };
    let lexer = Lexer::new(syn, EsVersion::latest(), StringInput::from(&*fm), Some(comments));
    let mut p = Parser::new_from(lexer);
    let r = if mode == "script" { p.parse_script().map(Program::Script) } else { p.parse_module().map(Program::Module) };
    let r = r.map_err(|e| format!("parse: {:?}", e.kind()))?;
    if let Some(e) = p.take_errors().into_iter().next() {
        return Err(format!("parse: {:?}", e.kind()));
    }
    Ok(r)
}
pub fn print(cm: &Rc<SourceMap>, p: &Program, comments: Option<&SingleThreadedComments>) -> String {
    let mut buf = vec![];
    {
        let mut e = Emitter { cfg: Default::default(), cm: cm.clone(), comments: comments.map(|c| c as _), wr: JsWriter::new(cm.clone(), "\n", &mut buf, None) };
        e.emit_program(p).unwrap();
    }
    String::from_utf8(buf).unwrap()
}

fn handle(r: &Req) -> Result<Value, String> {
    let cm = Rc::new(SourceMap::default());
    let comments = SingleThreadedComments::default();
    GLOBALS.set(&Globals::new(), || {
        let p = parse(&cm, &r.code, &r.mode, &comments)?;
        let (um, tm) = (Mark::new(), Mark::new());
        let p = p.apply(resolver(um, tm, r.mode.starts_with("ts")));
        let fin = |p: Program| {
            let p = if r.mode.starts_with("ts") { p.apply(strip(um, tm)) } else { p };
            p.apply(fixer(None))
        };
        let orig = p.clone();
        let orig2 = r.untouched.then(|| p.clone());
        if r.plain {
            return Ok(json!({"code": print(&cm, &fin(p), None)}));
        }
        let opts: InstrumentOptions = serde_json::from_value(r.options.clone()).map_err(|e| format!("options: {e}"))?;
        let v = create_coverage_instrumentation_visitor(Arc::new(Cm(cm.clone())), comments.clone(), opts, r.filename.clone());
        let p = p.apply(&mut visit_mut_pass(v));
        let mut ans = json!({});
        if r.erase {
            let (da, db) = (erase::prologues(&orig, None), erase::prologues(&p, erase::cov_name(&p)));
            if da != db {
                ans["directives"] = json!(format!("{da:?} became {db:?}"));
            }
            let (a, b) = erase::both(orig, p.clone(), &r.filename);
            let (a, b) = (print(&cm, &a, None), print(&cm, &b, None));
            if a != b {
                ans["erased_original"] = json!(a);
                ans["erased_instrumented"] = json!(b);
            }
        }
        let data = RefCell::new(None);
        let find = |c: &Comment| {
            if let Some(x) = c.text.strip_prefix("__coverage_data_json_comment__::") {
                *data.borrow_mut() = Some(x.to_string());
            }
        };
        {
            let (l, t) = comments.borrow_all();
            l.values().chain(t.values()).for_each(|v| v.iter().for_each(find));
        }
        if let Some(d) = data.into_inner() {
            ans["data"] = json!(d);
        }
        if r.untouched {
            let (a, b) = (print(&cm, &fin(orig2.unwrap()), None), print(&cm, &fin(p.clone()), None));
            ans["untouched"] = json!(a == b);
        }
        ans["code"] = json!(print(&cm, &fin(p), None));
        Ok(ans)
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a.get(1).map(|s| s.as_str()) {
        Some("serve") => {
            let out = std::io::stdout();
            for line in std::io::stdin().lock().lines() {
                let line = line.unwrap();
                let ans = match serde_json::from_str::<Req>(&line) {
                    Err(e) => json!({"error": format!("request: {e}")}),
                    Ok(r) => match catch_unwind(AssertUnwindSafe(|| handle(&r))) {
                        Ok(Ok(v)) => v,
                        Ok(Err(e)) => json!({ "error": e }),
                        Err(p) => json!({"panic": p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()}),
                    },
                };
                let mut o = out.lock();
                writeln!(o, "{ans}").unwrap();
                o.flush().unwrap();
            }
        }
        _ => std::process::exit(2),
    }
}
