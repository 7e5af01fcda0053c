'use strict';
// Judges one instrumented program. Every finding is {prop, msg}.
const { run } = require('./env.js');
const vm = require('vm');
const rk = r => r.join(':');
const locKey = l => [l.start.line, l.start.column, l.end.line, l.end.column].join(':');
const inside = (a, b) => { // a within b
  const ge = (l1, c1, l2, c2) => l1 > l2 || (l1 === l2 && c1 >= c2);
  return ge(a[0], a[1], b[0], b[1]) && ge(b[2], b[3], a[2], a[3]);
};
const locArr = l => [l.start.line, l.start.column, l.end.line, l.end.column];
const isZero = k => k === '0:0:0:0';

function sumKeys(keys, cnt) { let n = 0; for (const k of keys) n += cnt.get(String(k)) || 0; return n; }

// counters found in the emitted text
function sites(code) {
  const m = new Map(); const re = /(?<!P\.)cov_\d+\(\)\)?\.(s|f|b|bT)\[(\d+)\](?:\[(\d+)\])?\+\+/g; let x;
  const fns = new Set();
  while ((x = re.exec(code))) { fns.add(x[0].slice(0, x[0].indexOf('('))); const k = x[1] + ',' + x[2] + (x[3] === undefined ? '' : ',' + x[3]); m.set(k, (m.get(k) || 0) + 1); }
  return { m, fns };
}
// every counter addresses an entry, every entry has one counter; meta data and counters in step
function structural(code, data) {
  const out = [];
  const { m, fns } = sites(code);
  const want = new Map();
  for (const i of Object.keys(data.s)) want.set('s,' + i, 1);
  for (const i of Object.keys(data.f)) want.set('f,' + i, 1);
  for (const i of Object.keys(data.b)) data.b[i].forEach((_, j) => want.set(`b,${i},${j}`, 1));
  for (const i of Object.keys(data.bT || {})) data.bT[i].forEach((_, j) => want.set(`bT,${i},${j}`, 1));
  for (const [k, n] of m) { if (!want.has(k)) out.push({ prop: 'sites', msg: `counter ${k} addresses no entry of the coverage data` }); else if (n !== 1) out.push({ prop: 'sites', msg: `counter ${k} appears ${n} times` }); }
  for (const k of want.keys()) if (!m.has(k)) out.push({ prop: 'sites', msg: `entry ${k} of the coverage data has no counter in the code` });
  const same = (a, b, n) => { if (Object.keys(a).sort().join() !== Object.keys(b).sort().join()) out.push({ prop: 'step', msg: `${n}: ids of metadata and counters differ` }); };
  same(data.s, data.statementMap, 'statements'); same(data.f, data.fnMap, 'functions'); same(data.b, data.branchMap, 'branches');
  for (const i of Object.keys(data.b)) {
    if (!data.branchMap[i]) continue;
    if (data.b[i].length !== data.branchMap[i].locations.length) out.push({ prop: 'step', msg: `branch ${i}: ${data.b[i].length} counters for ${data.branchMap[i].locations.length} locations` });
    if (data.b[i].length === 0) out.push({ prop: 'step', msg: `branch ${i} has no path` });
  }
  for (const i of Object.keys(data.bT || {})) if (!data.b[i] || data.b[i].length !== data.bT[i].length) out.push({ prop: 'step', msg: `bT of branch ${i} is out of step` }); else if (data.branchMap[i] && data.branchMap[i].type !== 'binary-expr') out.push({ prop: 'step', msg: `branch ${i} is no logical expression but has truthy counters` });
  return out;
}

// the entries that must, may and must not be there
function entries(exp, data, code) {
  const out = [];
  const S = new Map(), F = new Map(), B = new Map(), L = new Map();
  for (const e of exp) {
    const k = rk(e.range);
    if (e.kind === 's') { if (!S.has(k)) S.set(k, []); S.get(k).push(e); }
    else if (e.kind === 'f') F.set(k, e);
    else if (e.kind === 'b') B.set(e.type + '@' + k, e);
    else if (e.kind === 'l' || e.kind === 'n') L.set(k, e);
  }
  return { S, F, B, L };
}
function judge(exp, data, trace, opts) {
  const out = [];
  const cnt = new Map();
  for (const k of trace) cnt.set(k, (cnt.get(k) || 0) + 1);
  const { S, F, B, L } = entries(exp, data);
  const ign = exp.filter(e => e.kind === 'x');
  const seen = new Set(), times = new Map();
  const more = (what, k, n, i) => { const t = (times.get(what + k) || 0) + 1; times.set(what + k, t); if (t > n) bad('complete', `the ${what} at ${k} is reported ${t} times`); };
  const bad = (prop, msg) => out.push({ prop, msg });
  const inIgn = k => { if (isZero(k)) return false; const r = k.split(':').map(Number); return ign.some(e => inside(r, e.range) && !(e.proper && k === rk(e.range) && false)); };
  for (const i of Object.keys(data.statementMap)) {
    const k = locKey(data.statementMap[i]); const es = S.get(k);
    if (!es) { bad('loc', `statement ${i} at ${k}: nothing starts and ends there`); continue; }
    seen.add('s' + k); more('statement', k, es.length);
    if (inIgn(k)) bad('ignore', `statement ${i} at ${k} lies inside a part marked to be ignored`);
    for (const e of es) { if (e.forbid && es.length === 1) bad('loc', `statement ${i} at ${k} should not be reported on its own`); }
    const wants = es.filter(e => e.keys).map(e => sumKeys(e.keys, cnt));
    if (wants.length && es.every(e => e.keys) && !wants.includes(data.s[i])) bad('count', `statement ${i} at ${k}: counted ${data.s[i]}, ran ${wants[0]}`);
  }
  for (const i of Object.keys(data.fnMap)) {
    const f = data.fnMap[i], k = locKey(f.loc); const e = F.get(k);
    if (!e) { bad('loc', `function ${i} (${f.name}) body at ${k}: no function body there`); continue; }
    seen.add('f' + k); more('function', k, 1);
    if (inIgn(k)) bad('ignore', `function ${i} (${f.name}) at ${k} lies inside a part marked to be ignored`);
    if (e.decl && !isZero(rk(e.decl)) && locKey(f.decl) !== rk(e.decl) ) bad('loc', `function ${i} (${f.name}) at ${k}: declared at ${rk(e.decl)}, reported at ${locKey(f.decl)}`);
    if (e.name !== undefined && (e.name === null ? f.name !== `(anonymous_${i})` : f.name !== e.name)) bad('name', `function ${i} at ${k}: named ${e.name}, reported as ${f.name}`);
    if (f.line !== f.loc.start.line) bad('loc', `function ${i}: line ${f.line} is not where its body starts`);
    if (e.keys && sumKeys(e.keys, cnt) !== data.f[i]) bad('count', `function ${i} (${f.name}) at ${k}: counted ${data.f[i]}, ran ${sumKeys(e.keys, cnt)}`);
  }
  for (const i of Object.keys(data.branchMap)) {
    const b = data.branchMap[i], k = locKey(b.loc), key = b.type + '@' + k, e = B.get(key);
    if (!e) { bad('loc', `branch ${i} (${b.type}) at ${k}: no such construct there`); continue; }
    seen.add('b' + key); more('branch', key, 1);
    if (inIgn(k)) bad('ignore', `branch ${i} (${b.type}) at ${k} lies inside a part marked to be ignored`);
    if (b.line !== b.loc.start.line) bad('loc', `branch ${i}: line ${b.line} is not where it starts`);
    if (e.anyPaths || b.type === 'default-arg') {
      b.locations.forEach((l, j) => {
        const lk = locKey(l), le = L.get(lk);
        if (!le) { bad('loc', `branch ${i} (${b.type}) path ${j} at ${lk}: no operand there`); return; }
        if (le.kind === 'n') { bad('ignore', `branch ${i} path ${j} at ${lk}: the operand is marked to be ignored`); return; }
        if (inIgn(lk)) bad('ignore', `branch ${i} path ${j} at ${lk} lies inside a part marked to be ignored`);
        seen.add('l' + lk);
        if (le.keys && sumKeys(le.keys, cnt) !== data.b[i][j]) bad('count', `branch ${i} (${b.type}) path ${j} at ${lk}: counted ${data.b[i][j]}, evaluated ${sumKeys(le.keys, cnt)}`);
        if (opts.reportLogic && b.type === 'binary-expr') {
          if (!data.bT || !data.bT[i]) bad('truthy', `branch ${i}: no truthy counters`);
          else if (le.bt && sumKeys(le.bt, cnt) !== data.bT[i][j]) bad('truthy', `branch ${i} path ${j} at ${lk}: counted ${data.bT[i][j]} truthy values, there were ${sumKeys(le.bt, cnt)}`);
          else if (data.bT[i][j] > data.b[i][j]) bad('truthy', `branch ${i} path ${j}: more truthy values than evaluations`);
        }
      });
    }
    if (!e.anyPaths && e.paths) {
      if (e.paths.length !== b.locations.length) { if (b.type !== 'default-arg') bad(b.locations.length > e.paths.length ? 'ignore' : 'complete', `branch ${i} (${b.type}) at ${k}: ${b.locations.length} paths, expected ${e.paths.length}`); continue; }
      e.paths.forEach((p, j) => {
        if (locKey(b.locations[j]) !== rk(p.range)) bad('loc', `branch ${i} (${b.type}) path ${j}: at ${rk(p.range)}, reported at ${locKey(b.locations[j])}`);
        if (p.keys && sumKeys(p.keys, cnt) !== data.b[i][j]) bad('count', `branch ${i} (${b.type}) at ${k} path ${j}: counted ${data.b[i][j]}, taken ${sumKeys(p.keys, cnt)}`);
      });
    }
  }
  const inIgnR = r => ign.some(e => inside(r, e.range));
  for (const e of exp) {
    if (!e.must || inIgnR(e.range)) continue;
    const k = rk(e.range);
    if (e.kind === 's' && !seen.has('s' + k)) bad('complete', `the statement at ${k} is not reported`);
    if (e.kind === 'f' && !seen.has('f' + k)) bad('complete', `the function with body at ${k} is not reported`);
    if (e.kind === 'b' && !seen.has('b' + e.type + '@' + k) && !(e.paths && e.paths.length === 0)) bad('complete', `the ${e.type} at ${k} is not reported`);
    if (e.kind === 'l' && !seen.has('l' + k)) bad('complete', `the operand at ${k} is not reported as a branch path`);
  }
  return out;
}

async function program(server, g, opts) {
  // g: {code, exp, mode, seed, times}
  const options = { ...(opts.options || {}), debugInitialCoverageComment: true };
  const filename = opts.filename || 'f.js';
  const req = { code: g.code, filename, mode: g.mode, options, erase: true };
  const a = await server.ask(req);
  if (a.error) return { skip: a.error };
  const out = [];
  if (a.panic !== undefined) return { out: [{ prop: 'panic', msg: `the instrumenter panicked: ${a.panic}` }] };
  if (a.directives) out.push({ prop: 'directive', msg: 'directives: ' + a.directives });
  if (a.erased_original) out.push({ prop: 'erase', msg: 'without its counters the instrumented program is not the original one', diff: firstDiff(a.erased_original, a.erased_instrumented) });
  const o = await run(g.code, g.mode === 'module' ? 'module' : 'script', g.seed, g.times || 1);
  if (o.syntax) return { skip: 'original: ' + o.syntax, out };
  const i = await run(a.code, g.mode === 'module' ? 'module' : 'script', g.seed, g.times || 1);
  if (i.syntax) {
    const q = await server.ask({ ...req, plain: true });
    if (q.code && (await run(q.code, g.mode === 'module' ? 'module' : 'script', g.seed, 1)).syntax) return { skip: 'printer', out }; out.push({ prop: 'behave', msg: 'the instrumented program does not parse: ' + i.syntax }); return { out, a }; }
  const d = (x, y, what) => { const n = Math.max(x.length, y.length); for (let j = 0; j < n; j++) if (x[j] !== y[j]) { out.push({ prop: 'behave', msg: `${what} ${j}: original ${x[j]}, instrumented ${y[j]}` }); return; } };
  d(o.log, i.log, 'output'); d(o.trace, i.trace, 'event');
  const cov = vm.runInContext('globalThis[' + JSON.stringify((opts.options || {}).coverageVariable || '__coverage__') + ']', i.ctx);
  const data = cov && cov[filename];
  if (!data) { out.push({ prop: 'template', msg: 'the coverage object has no entry for the file' }); return { out, a }; }
  const pl = JSON.parse(JSON.stringify(data));
  if (a.data) out.push(...emitted(a.data, pl));
  out.push(...structural(a.code, pl));
  out.push(...judge(g.exp, pl, o.trace, options));
  return { out, a, data: pl, log: o.log, trace: o.trace };
}
// what the running program starts with is what was recorded
function emitted(json, pl) {
  const want = JSON.parse(json), out = [];
  const norm = x => { const y = JSON.parse(JSON.stringify(x)); for (const k of ['s', 'f']) for (const i of Object.keys(y[k])) y[k][i] = 0; for (const k of ['b', 'bT']) for (const i of Object.keys(y[k] || {})) y[k][i] = y[k][i].map(() => 0); delete y.hash; delete y._coverageSchema; for (const k of Object.keys(y)) if (/^cov_\d+_temp$/.test(k)) delete y[k]; return y; };
  const a = norm(want), b = norm(pl);
  const diff = (x, y, path) => {
    if (out.length) return;
    if (x && y && typeof x === 'object' && typeof y === 'object') { for (const k of new Set([...Object.keys(x), ...Object.keys(y)])) diff(x[k], y[k], path + '/' + k); return; }
    if (x !== y && !(x === null && y === undefined)) out.push({ prop: 'emitted', msg: `coverage data at ${path}: recorded ${JSON.stringify(x)}, emitted ${JSON.stringify(y)}` });
  };
  diff(a, b, '');
  return out;
}
function firstDiff(a, b) { const x = a.split('\n'), y = b.split('\n'); for (let i = 0; i < Math.max(x.length, y.length); i++) if (x[i] !== y[i]) return { line: i + 1, original: x.slice(i, i + 4).join('\n'), instrumented: y.slice(i, i + 4).join('\n') }; return null; }
module.exports = { program, structural, judge, firstDiff, emitted };
