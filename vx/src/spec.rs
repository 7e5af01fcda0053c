//! Parser of the unit description files (`*.vspec`).
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct FnSpec {
    pub file: String,
    pub path: String,
    pub rename: Option<String>,
    pub external: bool,
    pub optional: bool,
    pub ret: Option<String>,
    pub params: Vec<String>,
    pub locals: Vec<(String, String)>,
    pub clauses: String, // requires/ensures/decreases
    pub header_extra: String,
    pub loops: BTreeMap<usize, String>,
    pub forloops: BTreeMap<usize, String>,
    pub loopstart: BTreeMap<usize, String>,
    pub loopend: BTreeMap<usize, String>,
    pub before: BTreeMap<usize, String>,
    pub after: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, (String, String)>, // ret decl "r: T", clause text
    pub start: String,
    pub end: String,
    pub stmt_before: BTreeMap<usize, String>,
    pub stmt_after: BTreeMap<usize, String>,
    pub nloops: Option<usize>,
    pub attrs: String,
    pub free: bool,
    /// emitted as the method of a trait whose contract is in the prelude
    pub in_trait: bool,
    /// the contract of every method of an impl that has none of its own
    pub rest: bool,
    pub typarams: Vec<(String, String)>,
    pub replace: Vec<(String, String)>,
    pub call_before: Vec<(String, usize, String)>,
    pub call_after: Vec<(String, usize, String)>,
    pub inline: Vec<String>,
    pub noinline: Vec<String>,
    pub origin_line: usize,
}

#[derive(Debug, Clone)]
pub enum Item {
    Ghost(String),
    Types(String, Vec<String>),
    /// data types of a dependency; every type but the named ones is emitted
    Ast(String, Vec<String>),
    Fn(FnSpec),
    Macro(MacroUse),
}

#[derive(Debug, Clone, Default)]
pub struct MacroUse {
    pub file: String,
}

pub struct Unit {
    pub items: Vec<Item>,
    pub opts: BTreeMap<String, String>,
}

pub fn parse(path: &str) -> Unit {
    let mut unit = Unit { items: vec![], opts: BTreeMap::new() };
    parse_into(path, &mut unit);
    unit
}

fn parse_into(path: &str, unit: &mut Unit) {
    let txt = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    #[derive(PartialEq, Debug, Clone)]
    enum Sect {
        None,
        Ghost,
        Clauses,
        Loop(usize),
        ForLoop(usize),
    LoopStart(usize),
        LoopEnd(usize),
        Before(usize),
        After(usize),
        Closure(usize),
        Start,
        End,
        StmtBefore(usize),
        StmtAfter(usize),
        CallBefore(usize),
        CallAfter(usize),
    }
    let mut sect = Sect::None;
    let mut cur: Option<FnSpec> = None;
    let mut ghost = String::new();
    macro_rules! flush {
        () => {
            if let Some(f) = cur.take() {
                unit.items.push(Item::Fn(f));
            }
            if !ghost.is_empty() {
                unit.items.push(Item::Ghost(std::mem::take(&mut ghost)));
            }
        };
    }
    for (ln, line) in txt.lines().enumerate() {
        if line.starts_with("%%") {
            continue;
        }
        if let Some(rest) = line.strip_prefix('%') {
            let mut it = rest.splitn(2, char::is_whitespace);
            let cmd = it.next().unwrap();
            let arg = it.next().unwrap_or("").trim().to_string();
            let num = || -> usize { arg.split_whitespace().next().unwrap().parse().unwrap_or_else(|_| panic!("{path}:{}: number expected", ln + 1)) };
            match cmd {
                "include" => {
                    flush!();
                    sect = Sect::None;
                    let p = dir.join(&arg);
                    if arg.ends_with(".vspec") {
                        parse_into(p.to_str().unwrap(), unit);
                    } else {
                        let t = std::fs::read_to_string(&p).unwrap_or_else(|e| panic!("{}: {e}", p.display()));
                        unit.items.push(Item::Ghost(t));
                    }
                }
                // the same contracts, taken as given here
                "includeext" => {
                    flush!();
                    sect = Sect::None;
                    let p = dir.join(&arg);
                    let k = unit.items.len();
                    parse_into(p.to_str().unwrap(), unit);
                    for i in unit.items[k..].iter_mut() {
                        if let Item::Fn(f) = i {
                            f.external = true;
                        }
                    }
                }
                "opt" => {
                    let mut kv = arg.splitn(2, '=');
                    unit.opts.insert(kv.next().unwrap().trim().into(), kv.next().unwrap_or("").trim().into());
                }
                "types" => {
                    flush!();
                    sect = Sect::None;
                    let (f, names) = arg.split_once(':').expect("%types file: A, B");
                    unit.items.push(Item::Types(f.trim().into(), names.split(',').map(|s| s.trim().to_string()).collect()));
                }
                "asttypes" => {
                    flush!();
                    sect = Sect::None;
                    let (f, names) = arg.split_once(':').expect("%asttypes file: without A, B");
                    unit.items.push(Item::Ast(f.trim().into(), names.trim().trim_start_matches("without").split(',').map(|s| s.trim().to_string()).collect()));
                }
                "ghost" => {
                    flush!();
                    sect = Sect::Ghost;
                }
                "fn" | "impl" => {
                    flush!();
                    let mut it = arg.splitn(2, char::is_whitespace);
                    let f = it.next().unwrap().to_string();
                    let p = it.next().unwrap_or_else(|| panic!("{path}:{}", ln + 1)).trim().to_string();
                    let rest = cmd == "impl";
                    cur = Some(FnSpec { file: f, path: if rest { format!("{p}::*") } else { p }, rest, origin_line: ln + 1, ..Default::default() });
                    sect = Sect::Clauses;
                }
                _ => {
                    let f = cur.as_mut().unwrap_or_else(|| panic!("{path}:{}: %{cmd} outside %fn", ln + 1));
                    match cmd {
                        "rename" => f.rename = Some(arg),
                        "external" => f.external = true,
                        "optional" => f.optional = true,
                        "free" => f.free = true,
                        "trait" => f.in_trait = true,
                        "attrs" => f.attrs = arg,
                        "generics" => f.header_extra = arg,
                        "ret" => f.ret = Some(arg),
                        "params" => f.params = arg.split(',').map(|s| s.trim().to_string()).collect(),
                        "locals" => {
                            for t in arg.split_whitespace() {
                                let (n, i) = t.split_once('=').unwrap();
                                f.locals.push((n.to_string(), i.to_string()));
                            }
                        }
                        "nloops" => f.nloops = Some(num()),
                        "inline" => f.inline.extend(arg.split(',').map(|s| s.trim().to_string())),
                        "noinline" => f.noinline.extend(arg.split(',').map(|s| s.trim().to_string())),
                        "typaram" => {
                            let (a, b) = arg.split_once('=').unwrap();
                            f.typarams.push((a.trim().into(), b.trim().into()));
                        }
                        "replace" => {
                            let (a, b) = arg.split_once("=>").unwrap();
                            f.replace.push((a.trim().into(), b.trim().into()));
                        }
                        "loop" => { sect = Sect::Loop(num()); continue; }
                        "forloop" => { sect = Sect::ForLoop(num()); continue; }
                        "loopstart" => { sect = Sect::LoopStart(num()); continue; }
                        "loopend" => { sect = Sect::LoopEnd(num()); continue; }
                        "before" => { sect = Sect::Before(num()); continue; }
                        "after" => { sect = Sect::After(num()); continue; }
                        "stmtbefore" => { sect = Sect::StmtBefore(num()); continue; }
                        "stmtafter" => { sect = Sect::StmtAfter(num()); continue; }
                        "callbefore" | "callafter" => {
                            let mut it = arg.split_whitespace();
                            let n = it.next().unwrap().to_string();
                            let k: usize = it.next().unwrap_or("0").parse().unwrap();
                            if cmd == "callbefore" {
                                f.call_before.push((n, k, String::new()));
                                sect = Sect::CallBefore(f.call_before.len() - 1);
                            } else {
                                f.call_after.push((n, k, String::new()));
                                sect = Sect::CallAfter(f.call_after.len() - 1);
                            }
                            continue;
                        }
                        "closure" => {
                            let n = num();
                            let rest = arg.splitn(2, char::is_whitespace).nth(1).unwrap_or("").trim().to_string();
                            f.closures.insert(n, (rest, String::new()));
                            sect = Sect::Closure(n);
                            continue;
                        }
                        "start" => { sect = Sect::Start; continue; }
                        "end" => { sect = Sect::End; continue; }
                        _ => panic!("{path}:{}: unknown directive %{cmd}", ln + 1),
                    }
                }
            }
            continue;
        }
        let add = |s: &mut String| {
            s.push_str(line);
            s.push('\n');
        };
        match &sect {
            Sect::None => {
                if !line.trim().is_empty() {
                    panic!("{path}:{}: stray text", ln + 1)
                }
            }
            Sect::Ghost => add(&mut ghost),
            s => {
                let f = cur.as_mut().unwrap();
                match s {
                    Sect::Clauses => add(&mut f.clauses),
                    Sect::Loop(n) => add(f.loops.entry(*n).or_default()),
                    Sect::ForLoop(n) => add(f.forloops.entry(*n).or_default()),
                    Sect::LoopStart(n) => add(f.loopstart.entry(*n).or_default()),
                    Sect::LoopEnd(n) => add(f.loopend.entry(*n).or_default()),
                    Sect::Before(n) => add(f.before.entry(*n).or_default()),
                    Sect::After(n) => add(f.after.entry(*n).or_default()),
                    Sect::StmtBefore(n) => add(f.stmt_before.entry(*n).or_default()),
                    Sect::StmtAfter(n) => add(f.stmt_after.entry(*n).or_default()),
                    Sect::CallBefore(n) => add(&mut f.call_before[*n].2),
                    Sect::CallAfter(n) => add(&mut f.call_after[*n].2),
                    Sect::Closure(n) => add(&mut f.closures.get_mut(n).unwrap().1),
                    Sect::Start => add(&mut f.start),
                    Sect::End => add(&mut f.end),
                    _ => unreachable!(),
                }
            }
        }
    }
    flush!();
}
