//! Executes the real, compiled istanbul-oxide on generated reports and compares it
//! with oracles written from the property statements (not from the code).
//! usage: replay-oxide PROPERTY SEED SECONDS OUT.json
use indexmap::IndexMap;
use istanbul_oxide::vx_hooks::{percent, summary_totals, Coverage, CoveragePercentage, Totals};
use istanbul_oxide::*;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

mod gen;
use gen::*;

type R = Result<(), String>;
type Key = (u32, u32, u32, u32);
fn rk(r: &Range) -> Key {
    (r.start.line, r.start.column, r.end.line, r.end.column)
}
fn ck<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}

// ---------------------------------------------------------------- oracles
#[derive(Default, Debug, PartialEq, Clone)]
struct Hits {
    s: BTreeMap<Key, u64>,
    f: BTreeMap<Key, u64>,
    b: BTreeMap<Key, Vec<u64>>,
    t: BTreeMap<Key, Vec<u64>>,
}
fn addv(m: &mut BTreeMap<Key, Vec<u64>>, k: Key, v: &[u32]) {
    let e = m.entry(k).or_default();
    if e.len() < v.len() {
        e.resize(v.len(), 0);
    }
    for (i, x) in v.iter().enumerate() {
        e[i] += *x as u64;
    }
}
impl Hits {
    fn add(&mut self, c: &FileCoverage) -> Result<(), String> {
        for (id, h) in &c.s {
            *self.s.entry(rk(c.statement_map.get(id).ok_or("statement counter without location")?)).or_default() += *h as u64;
        }
        for (id, h) in &c.f {
            *self.f.entry(rk(&c.fn_map.get(id).ok_or("function counter without location")?.loc)).or_default() += *h as u64;
        }
        for (id, h) in &c.b {
            let br = c.branch_map.get(id).ok_or("branch counter without location")?;
            addv(&mut self.b, rk(&br.locations[0]), h);
        }
        if let Some(t) = &c.b_t {
            for (id, h) in t {
                let br = c.branch_map.get(id).ok_or_else(|| format!("truthy counter {id} without branch"))?;
                addv(&mut self.t, rk(&br.locations[0]), h);
            }
        }
        Ok(())
    }
    fn of(cs: &[&FileCoverage]) -> Result<Hits, String> {
        let mut h = Hits::default();
        for c in cs {
            h.add(c)?;
        }
        Ok(h)
    }
}
fn uniq(c: &FileCoverage) -> R {
    let mut seen = BTreeSet::new();
    for (_, r) in &c.statement_map {
        if !seen.insert(rk(r)) {
            return Err(format!("two statement counters for {:?}", rk(r)));
        }
    }
    ck("statement ids", c.s.keys().collect::<BTreeSet<_>>(), c.statement_map.keys().collect())?;
    ck("function ids", c.f.keys().collect::<BTreeSet<_>>(), c.fn_map.keys().collect())?;
    ck("branch ids", c.b.keys().collect::<BTreeSet<_>>(), c.branch_map.keys().collect())?;
    let mut seen = BTreeSet::new();
    for (_, r) in &c.fn_map {
        if !seen.insert(rk(&r.loc)) {
            return Err(format!("two function counters for {:?}", rk(&r.loc)));
        }
    }
    let mut seen = BTreeSet::new();
    for (_, r) in &c.branch_map {
        if !seen.insert(rk(&r.locations[0])) {
            return Err(format!("two branch counters for {:?}", rk(&r.locations[0])));
        }
    }
    Ok(())
}
fn from_either(r: &FileCoverage, a: &FileCoverage, b: &FileCoverage) -> R {
    for f in r.fn_map.values() {
        if !a.fn_map.values().chain(b.fn_map.values()).any(|x| x == f) {
            return Err(format!("function metadata invented: {f:?}"));
        }
    }
    for f in r.branch_map.values() {
        if !a.branch_map.values().chain(b.branch_map.values()).any(|x| x == f) {
            return Err(format!("branch metadata invented: {f:?}"));
        }
    }
    Ok(())
}

fn merge_sums(a: &FileCoverage, b: &FileCoverage, truthy: bool) -> R {
    let mut r = a.clone();
    r.merge(b);
    let want = Hits::of(&[a, b])?;
    if truthy {
        if a.b_t.is_none() {
            return ck("truthy tracking of a report without it", r.b_t.is_some(), false);
        }
        if r.b_t.is_none() {
            return Err("truthy counters lost by merge".into());
        }
        let got = Hits::of(&[&r])?;
        return ck("truthy hits per branch location", got.t, want.t);
    }
    let got = Hits::of(&[&r])?;
    ck("statement hits per location", got.s.clone(), want.s)?;
    ck("function hits per location", got.f.clone(), want.f)?;
    ck("branch path hits per location", got.b.clone(), want.b)?;
    uniq(&r)?;
    from_either(&r, a, b)?;
    ck("path", r.path.as_str(), a.path.as_str())?;
    ck("source map", &r.input_source_map, &a.input_source_map)?;
    ck("placeholder flag", r.all, false)?;
    let mut q = b.clone();
    q.merge(a);
    let got2 = Hits::of(&[&q])?;
    ck("merge in the other order, statements", got2.s, got.s)?;
    ck("merge in the other order, functions", got2.f, got.f)?;
    ck("merge in the other order, branches", got2.b, got.b)
}
fn c01(g: &mut G) -> Case {
    let a = g.report("f.js", Some(false));
    let b = g.report("f.js", Some(false));
    let c = g.report("f.js", Some(false));
    case(vec![a, b, c], |v| {
        merge_sums(&v[0], &v[1], false)?;
        let (mut l, mut r) = (v[0].clone(), v[1].clone());
        l.merge(&v[1]);
        l.merge(&v[2]);
        r.merge(&v[2]);
        let mut r2 = v[0].clone();
        r2.merge(&r);
        let (x, y) = (Hits::of(&[&l])?, Hits::of(&[&r2])?);
        let w = Hits::of(&[&v[0], &v[1], &v[2]])?;
        ck("grouped left", (&x.s, &x.f, &x.b), (&w.s, &w.f, &w.b))?;
        ck("grouped right", (&y.s, &y.f, &y.b), (&w.s, &w.f, &w.b))
    })
}
fn c02(g: &mut G) -> Case {
    let a = g.report("f.js", Some(false));
    let b = g.report("f.js", Some(false));
    case(vec![a, b], |v| merge_sums(&v[0], &v[1], true))
}
fn c03(g: &mut G) -> Case {
    let (x, y) = if g.chance(2) { (true, g.chance(2)) } else { (g.chance(2), true) };
    let a = g.report("f.js", Some(x));
    let b = g.report("f.js", Some(y));
    case(vec![a, b], |v| {
        let mut r = v[0].clone();
        r.merge(&v[1]);
        if v[1].all {
            ck("merging a placeholder changes nothing", &r, &v[0])
        } else if v[0].all {
            ck("a placeholder is replaced by the real report", &r, &v[1])
        } else {
            Ok(())
        }
    })
}
/// hits by file, placeholders ignored
fn by_path(cs: &[&FileCoverage]) -> Result<BTreeMap<String, (Hits, bool)>, String> {
    let mut m: BTreeMap<String, (Hits, bool)> = BTreeMap::new();
    for c in cs {
        let e = m.entry(c.path.clone()).or_insert((Hits::default(), true));
        if !c.all {
            e.0.add(c)?;
            e.1 = false;
        }
    }
    Ok(m)
}
fn same_map(what: &str, m: &CoverageMap, cs: &[&FileCoverage]) -> R {
    let want = by_path(cs)?;
    let files: Vec<String> = m.get_files().into_iter().cloned().collect();
    let mut order: Vec<String> = vec![];
    for c in cs {
        if !order.contains(&c.path) {
            order.push(c.path.clone());
        }
    }
    ck(&format!("{what}: files"), &files, &order)?;
    for (p, (h, all)) in &want {
        let f = m.get_coverage_for_file(p).ok_or(format!("{what}: {p} missing"))?;
        ck(&format!("{what}: path of the entry"), &f.path, p)?;
        if *all {
            ck(&format!("{what}: {p} is still a placeholder"), f.all, true)?;
        } else {
            ck(&format!("{what}: {p} is real"), f.all, false)?;
            let got = Hits::of(&[f])?;
            ck(&format!("{what}: statement hits of {p}"), &got.s, &h.s)?;
            ck(&format!("{what}: function hits of {p}"), &got.f, &h.f)?;
            ck(&format!("{what}: branch hits of {p}"), &got.b, &h.b)?;
        }
    }
    ck(&format!("{what}: unknown file"), m.get_coverage_for_file("nope.js").is_some(), false)
}
/// paths that are prefixes, suffixes or case variants of each other
const PATHS: [&str; 12] = ["a.js", "b.js", "dir/a.js", "", "a.js.map", "a.jsx", "A.js", "./a.js", "a.js ", "dir\\a.js", "dir//a.js", "é.js"];
fn c04(g: &mut G) -> Case {
    let n = 1 + g.below(5);
    let v: Vec<FileCoverage> = (0..n)
        .map(|_| {
            let p = PATHS[if g.chance(3) { g.below(PATHS.len() as u32) } else { g.below(4) } as usize];
            g.report(p, None)
        })
        .collect();
    let cut = g.below(n + 1) as usize;
    let keep = g.below(1 << 12);
    case(v, move |v| {
        let m = CoverageMap::from_iter(v.iter());
        same_map("built from reports", &m, &v.iter().collect::<Vec<_>>())?;
        let (x, y) = v.split_at(cut.min(v.len()));
        let mut a = CoverageMap::new();
        for c in x {
            a.add_coverage_for_file(c);
        }
        same_map("added one by one", &a, &x.iter().collect::<Vec<_>>())?;
        let b = CoverageMap::from_iter(y.iter());
        let before: Vec<(String, FileCoverage)> = b.get_files().into_iter().map(|f| (f.clone(), b.get_coverage_for_file(f).unwrap().clone())).collect();
        a.merge(&b);
        same_map("merged", &a, &v.iter().collect::<Vec<_>>())?;
        for (p, c) in &before {
            ck("the merged-in map is unchanged", b.get_coverage_for_file(p), Some(c))?;
        }
        let kp = |p: &str| keep >> PATHS.iter().position(|q| *q == p).unwrap() & 1 > 0;
        let mut fl = CoverageMap::from_iter(v.iter());
        fl.filter(|c| kp(&c.path));
        let all: Vec<String> = m.get_files().into_iter().cloned().collect();
        let want: Vec<String> = all.iter().filter(|p| kp(p)).cloned().collect();
        ck("filter keeps exactly the accepted files", fl.get_files().into_iter().cloned().collect::<Vec<_>>(), want.clone())?;
        for p in &all {
            ck("filter leaves the entries alone", fl.get_coverage_for_file(p), if kp(p) { m.get_coverage_for_file(p) } else { None })?;
        }
        Ok(())
    })
}
fn lines(c: &FileCoverage) -> BTreeMap<u32, u32> {
    let mut m = BTreeMap::new();
    for (id, h) in &c.s {
        let e = m.entry(c.statement_map[id].start.line).or_insert(0);
        *e = (*e).max(*h);
    }
    m
}
fn c05(g: &mut G) -> Case {
    let a = g.report("f.js", None);
    case(vec![a], |v| {
        let want = lines(&v[0]);
        let got: BTreeMap<u32, u32> = v[0].get_line_coverage().into_iter().collect();
        ck("line coverage", &got, &want)?;
        let mut un = v[0].get_uncovered_lines();
        un.sort();
        ck("uncovered lines", un, want.iter().filter(|x| *x.1 == 0).map(|x| *x.0).collect())
    })
}
fn c06(g: &mut G) -> Case {
    let a = g.report("f.js", None);
    case(vec![a], |v| {
        let mut m: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
        for (id, b) in &v[0].branch_map {
            let l = b.line.unwrap_or_else(|| b.loc.unwrap().start.line);
            m.entry(l).or_default().extend(v[0].b[id].iter());
        }
        let got = v[0].get_branch_coverage_by_line();
        ck("lines with branches", got.keys().copied().collect::<BTreeSet<_>>(), m.keys().copied().collect())?;
        for (l, p) in m {
            let c = p.iter().filter(|h| **h > 0).count() as u32;
            let t = p.len() as u32;
            let cov = c as f32 / t as f32 * 100.0;
            let d = got[&l];
            // 0/0 is NaN in both
            if t == 0 {
                let s = format!("{d:?}");
                if !s.contains("covered: 0") || !s.contains("total: 0") {
                    return Err(format!("line {l}: {s}"));
                }
            } else {
                ck(&format!("branches of line {l}"), d, Coverage::new(c, t, cov))?;
            }
        }
        Ok(())
    })
}
fn pct(c: u32, t: u32) -> CoveragePercentage {
    CoveragePercentage::Value(percent(c, t))
}
fn tot(t: u64, c: u64) -> Totals {
    Totals::new(t as u32, c as u32, 0, pct(c as u32, t as u32))
}
/// (total, covered) for lines, statements, functions, branches, truthy
fn counts(c: &FileCoverage) -> [(u64, u64); 5] {
    let l = lines(c);
    let pos = |m: &IndexMap<u32, u32>| m.values().filter(|x| **x > 0).count() as u64;
    let bs = |m: &IndexMap<u32, Vec<u32>>| (m.values().map(|v| v.len() as u64).sum::<u64>(), m.values().flatten().filter(|x| **x > 0).count() as u64);
    [
        (l.len() as u64, l.values().filter(|x| **x > 0).count() as u64),
        (c.s.len() as u64, pos(&c.s)),
        (c.f.len() as u64, pos(&c.f)),
        bs(&c.b),
        c.b_t.as_ref().map(bs).unwrap_or((0, 0)),
    ]
}
fn c07(g: &mut G) -> Case {
    let a = g.report("f.js", None);
    case(vec![a], |v| {
        let k = counts(&v[0]);
        let (l, s, f, b, t) = summary_totals(&v[0].to_summary());
        ck("lines", l, tot(k[0].0, k[0].1))?;
        ck("statements", s, tot(k[1].0, k[1].1))?;
        ck("functions", f, tot(k[2].0, k[2].1))?;
        ck("branches", b, tot(k[3].0, k[3].1))?;
        ck("truthy branches", t, v[0].b_t.as_ref().map(|_| tot(k[4].0, k[4].1)))?;
        ck("simple totals", FileCoverage::compute_simple_totals(&v[0].s), tot(k[1].0, k[1].1))
    })
}
fn pct_ok(c: u32, t: u32) -> R {
    let p = percent(c, t);
    if t == 0 {
        return ck("nothing to cover", p, 100.0);
    }
    if !(0.0..=100.0).contains(&p) {
        return Err(format!("percent({c},{t}) = {p} is out of range"));
    }
    if (p == 100.0) != (c == t) {
        return Err(format!("percent({c},{t}) = {p}"));
    }
    let exact = c as f64 * 100.0 / t as f64;
    if p as f64 > exact + 0.0001 || (p as f64) < exact - 0.011 {
        return Err(format!("percent({c},{t}) = {p}, exact {exact}"));
    }
    if c > 0 && percent(c - 1, t) > p {
        return Err(format!("percent is not monotone at ({c},{t})"));
    }
    Ok(())
}
fn c08(g: &mut G) -> Case {
    let t = g.num().max(1);
    let mut c = (g.num() as u64 % (t as u64 + 1)) as u32;
    if g.chance(4) {
        c = t - g.below(3).min(t);
    }
    let exhaustive = g.n == 1;
    case(vec![], move |_| {
        if exhaustive {
            // every value floor(100000*c/t) can take
            for q in 0..=100000u32 {
                pct_ok(q, 100000)?;
            }
            for t in 0..400 {
                for c in 0..=t {
                    pct_ok(c, t)?;
                }
            }
            for t in [u32::MAX, u32::MAX - 1, 1 << 31, 999_999_937, 42949673, 42949672] {
                for c in [0, 1, 2, t / 2, t / 3, t - 2, t - 1, t] {
                    pct_ok(c, t)?;
                }
            }
        }
        pct_ok(c, t).map_err(|e| format!("covered={c} total={t}: {e}"))
    })
    .noted(format!("covered={c} total={t}"))
}
fn add(a: Totals, b: Totals) -> Totals {
    let (t, c) = (a.total + b.total, a.covered + b.covered);
    Totals::new(t, c, a.skipped + b.skipped, pct(c, t))
}
fn c09(g: &mut G) -> Case {
    let n = g.below(5);
    let mut v = vec![];
    for i in 0..n {
        let p = format!("f{i}.js");
        v.push(g.report(&p, None));
    }
    let skips: Vec<u32> = (0..10).map(|_| g.below(4)).collect();
    case(v, move |v| {
        let m = CoverageMap::from_iter(v.iter());
        let s = m.get_coverage_summary();
        let got = summary_totals(&s);
        let mut k = [(0u64, 0u64); 5];
        for c in v {
            for (i, x) in counts(c).iter().enumerate() {
                k[i].0 += x.0;
                k[i].1 += x.1;
            }
        }
        let w = |i: usize| {
            if v.is_empty() {
                Totals::new(0, 0, 0, CoveragePercentage::Unknown)
            } else {
                tot(k[i].0, k[i].1)
            }
        };
        ck("lines of all files", got.0, w(0))?;
        ck("statements of all files", got.1, w(1))?;
        ck("functions of all files", got.2, w(2))?;
        ck("branches of all files", got.3, w(3))?;
        ck("truthy branches of all files", got.4, if v.iter().any(|c| c.b_t.is_some()) { Some(tot(k[4].0, k[4].1)) } else { None })?;
        ck("empty iff no lines", s.is_empty(), k[0].0 == 0)?;
        // two summaries with skipped entries
        if v.len() >= 2 {
            let mk = |c: &FileCoverage, o: usize| {
                let (mut l, mut s, mut f, mut b, mut t) = summary_totals(&c.to_summary());
                l.skipped = skips[o];
                s.skipped = skips[o + 1];
                f.skipped = skips[o + 2];
                b.skipped = skips[o + 3];
                if let Some(t) = &mut t {
                    t.skipped = skips[o + 4];
                }
                istanbul_oxide::vx_hooks::CoverageSummary::new(l, s, f, b, t)
            };
            let (a, b) = (mk(&v[0], 0), mk(&v[1], 5));
            let mut r = istanbul_oxide::vx_hooks::CoverageSummary::from(&a);
            r.merge(&b);
            let (x, y, z) = (summary_totals(&a), summary_totals(&b), summary_totals(&r));
            ck("merged lines", z.0, add(x.0, y.0))?;
            ck("merged statements", z.1, add(x.1, y.1))?;
            ck("merged functions", z.2, add(x.2, y.2))?;
            ck("merged branches", z.3, add(x.3, y.3))?;
            let zero = Totals::new(0, 0, 0, CoveragePercentage::Unknown);
            ck("merged truthy", z.4, if y.4.is_some() { Some(add(x.4.unwrap_or(zero), y.4.unwrap())) } else { x.4 })?;
        }
        Ok(())
    })
}
fn c10(g: &mut G) -> Case {
    let a = g.report("f.js", None);
    case(vec![a], |v| {
        let mut r = v[0].clone();
        r.reset_hits();
        let mut w = v[0].clone();
        for (_, x) in w.s.iter_mut() {
            *x = 0;
        }
        for (_, x) in w.f.iter_mut() {
            *x = 0;
        }
        for (_, x) in w.b.iter_mut() {
            *x = vec![0; x.len()];
        }
        if let Some(t) = &mut w.b_t {
            for (_, x) in t.iter_mut() {
                *x = vec![0; x.len()];
            }
        }
        ck("everything but the counters is kept, every counter is 0", &r, &w)?;
        ck("counter order", r.s.keys().chain(r.b.keys()).collect::<Vec<_>>(), v[0].s.keys().chain(v[0].b.keys()).collect())
    })
}

pub struct Case {
    input: Vec<FileCoverage>,
    note: String,
    f: Box<dyn Fn(&[FileCoverage]) -> R>,
}
fn case(input: Vec<FileCoverage>, f: impl Fn(&[FileCoverage]) -> R + 'static) -> Case {
    Case { input, note: String::new(), f: Box::new(f) }
}
impl Case {
    fn noted(mut self, n: String) -> Case {
        self.note = n;
        self
    }
    fn run(&self) -> R {
        match catch_unwind(AssertUnwindSafe(|| (self.f)(&self.input))) {
            Ok(r) => r,
            Err(p) => Err(format!(
                "panicked: {}",
                p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
            )),
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, seed, secs, out) = (&a[1], a[2].parse::<u64>().unwrap(), a[3].parse::<f64>().unwrap(), &a[4]);
    std::panic::set_hook(Box::new(|_| {}));
    let f: fn(&mut G) -> Case = match prop.as_str() {
        "C01" => c01,
        "C02" => c02,
        "C03" => c03,
        "C04" => c04,
        "C05" => c05,
        "C06" => c06,
        "C07" => c07,
        "C08" => c08,
        "C09" => c09,
        "C10" => c10,
        _ => {
            eprintln!("unknown property");
            std::process::exit(2)
        }
    };
    let mut g = G::new(seed);
    let t0 = Instant::now();
    let mut n = 0u64;
    let mut distinct = BTreeSet::new();
    let mut sample = String::new();
    while t0.elapsed() < Duration::from_secs_f64(secs) {
        g.n += 1;
        n += 1;
        let c = f(&mut g);
        let js = || if c.input.is_empty() { c.note.clone() } else { serde_json::to_string(&c.input).unwrap() };
        if n <= 3000 {
            let s = js();
            if c.input.is_empty() || c.input.iter().any(|x| !x.s.is_empty() || !x.b.is_empty()) {
                distinct.insert(s.clone());
            }
            if n == 5 {
                sample = s;
            }
        }
        if let Err(e) = c.run() {
            let w = serde_json::json!({"property": prop, "seed": seed, "case": n, "what": e.chars().take(4000).collect::<String>(), "input": c.input});
            std::fs::write(out, serde_json::to_string_pretty(&w).unwrap()).unwrap();
            println!("FAIL case {n}");
            std::process::exit(3);
        }
    }
    let w = serde_json::json!({"property": prop, "seed": seed, "evaluations": n, "distinct_in_first_3000": distinct.len(), "sample": sample, "secs": t0.elapsed().as_secs_f64()});
    std::fs::write(out, w.to_string()).unwrap();
    println!("ok {n} cases");
}
