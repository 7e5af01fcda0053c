'use strict';
// main.js PROP SEED SECS OUT BIN
process.on('unhandledRejection', () => {});
const fs = require('fs'), vm = require('vm'), crypto = require('crypto');
const { Gen, Rng } = require('./gen.js'); const { Server } = require('./server.js'); const { program, structural, judge } = require('./oracle.js');
const { run } = require('./env.js'); const corpus = require('./corpus.js');
const [PROP, SEED, SECS, OUT, BIN] = process.argv.slice(2);
// which findings are violations of which property
const KINDS = {
  C11: ['step'], C12: ['sites', 'count'], C13: ['truthy', 'behave'], C14: ['emitted'], C15: ['template'], C16: ['hint'], C17: ['loc'], C18: ['behave', 'erase', 'panic'], C19: ['count'],
  C20: ['complete', 'name'], C21: ['ignore', 'complete'], C22: ['directive'], C23: ['compose'], C24: ['history'], C25: ['panic'], ALL: null,
};
const kinds = KINDS[PROP];
const W = { // scenario weights
  C13: { run: 10, logic: 1 }, C14: { run: 8, corpus: 1 }, C15: { reload: 6, pair: 4, late: 3, run: 2 }, C16: { hint: 10, part: 6, file: 3 }, C21: { run: 6, hint: 3, part: 3, file: 1 }, C22: { run: 8, corpus: 4 }, C23: { compose: 10 }, C24: { history: 4, twin: 8, pair: 4, late: 4 }, C18: { run: 10, corpus: 3 }, C25: { run: 3, corpus: 8 }, C12: { run: 8, corpus: 4 }, C11: { run: 8, corpus: 4 },
  ALL: { run: 10, reload: 2, pair: 2, compose: 2, history: 2, twin: 2, late: 2, hint: 2, part: 2, file: 1, corpus: 4 },
}[PROP] || { run: 1 };
const FILES = ['f.js', '/a/b.js', 'C:\\x\\y.js', 'q"u\'o.js', 'é/ß 漢.js', 'a\nb.js', '${x}`.js', '__proto__x', 'constructor.js', 'src/</script>.tsx', 'tab\t\\u0041.js', '\u2028.js'];
const SM = r => r.pick([null, null, null, null, null, { version: 3, sources: ['a"b\\c.ts', 'é'], names: ['n', "'"], mappings: 'AAAA;\nBB' }, { version: 4, file: 'f"\n.ts', sourceRoot: '', sources: [], sourcesContent: [null, 'x\u2028"y"', ''], names: [], mappings: '' }, { version: 3, file: '', sourceRoot: '/r\\', sources: ['x'], sourcesContent: [], names: [''], mappings: ';' }]);
const make = (seed, r, over) => {
  const mode = (over && over.mode) || r.pick(['script', 'script', 'module']);
  const o = { mode, hints: r.p(0.3), strict: r.p(0.2) && mode === 'script', dense: r.p(0.2), size: 20 + r.n(100), ...(over || {}) };
  const g = new Gen(seed, o).program();
  return LAST = Object.assign(g, { mode, seed, times: 1, strict: o.strict });
};
let LAST; // the program in hand when coverage data cannot even be read
const options = (r, g) => {
  const o = { reportLogic: PROP === 'C13' || r.p(0.25) };
  if (r.p(0.1)) o.coverageVariable = r.pick(['__cov2__', 'a"b', 'x y', 'é']);
  const sm = SM(r); if (sm) o.inputSourceMap = sm;
  if (r.p(PROP === 'C21' ? 0.35 : 0.12)) {
    const c = g.exp.filter(e => e.kind === 'f' && e.igm && e.full);
    if (c.length) {
      const near = r.pick(c).name; o.ignoreClassMethods = [r.pick(c).name, r.pick(c).name, 'nope', near.toUpperCase(), near.slice(0, -1), near + '_', 'get ' + near];
      if (r.p(0.3)) o.ignoreClassMethods = o.ignoreClassMethods.slice(3);
      for (const e of c) if (o.ignoreClassMethods.includes(e.name)) g.exp.push({ kind: 'x', range: e.full });
    }
  }
  return o;
};
const key = l => [l.start.line, l.start.column, l.end.line, l.end.column].join(':');
const entriesOf = d => {
  const out = [];
  for (const i of Object.keys(d.statementMap)) out.push('statement ' + key(d.statementMap[i]));
  for (const i of Object.keys(d.fnMap)) { const f = d.fnMap[i]; out.push(`function ${/^\(anonymous_\d+\)$/.test(f.name) ? '(anonymous)' : f.name} ${key(f.decl)} ${key(f.loc)} ${f.line}`); }
  for (const i of Object.keys(d.branchMap)) { const b = d.branchMap[i]; out.push(`branch ${b.type} ${key(b.loc)} ${b.line} [${b.locations.map(key)}]` + (d.bT && d.bT[i] ? ' with truthy counters' : '')); }
  return out;
};
const UNREAD = ['C11', 'C12', 'C14', 'C15', 'C20', 'ALL'];
const BIG = ['C12', 'C17', 'C19', 'C20', 'C25', 'ALL'];
const SHAPES = ['throw a;', 'throw a || b;', 'if (a) throw b; else c;', 'for (;;) { throw a; }', 'while (a) { if (b) break; continue; }', 'do { a; } while (b);', 'l: for (;;) { continue l; }', 'switch (a) { case b: throw c; default: d; }', 'try { throw a; } catch (e) { throw e; } finally { b; }', '(function () { return a || b; });', 'a ? b : c;', 'if (a) b; else if (c) d;', 'if (a) { b; } else { c; }', 'for (var i of j) if (k) l;', 'with (a) { b; }', 'tag`x`;', '(class { m() { a; } get p() { b; } static q = () => { c; } });', 'x = { m() { a; }, get p() { b; }, set p(v) { c; } };', 'debugger;', ';', '{ a; b; }', 'x = () => a;', 'x = async () => { await a; };', 'x = function* () { yield a || b; };', '({ a = 1 } = b);', '[a = b] = c;'];
const bag = l => { const m = new Map(); for (const x of l) m.set(x, (m.get(x) || 0) + 1); return m; };

const SC = {
  async run(s, r, seed) {
    const g = make(seed, r); const o = options(r, g); const filename = r.p(0.7) ? 'f.js' : r.pick(FILES);
    const res = await program(s, g, { options: o, filename });
    if (res.data && o.inputSourceMap) { const m = res.data.inputSourceMap; if (JSON.stringify(sorted(m)) !== JSON.stringify(sorted(o.inputSourceMap))) res.out.push({ prop: 'emitted', msg: `input source map: given ${JSON.stringify(o.inputSourceMap)}, emitted ${JSON.stringify(m)}` }); }
    if (res.data && res.data.path !== filename) res.out.push({ prop: 'emitted', msg: `path ${JSON.stringify(filename)} is emitted as ${JSON.stringify(res.data.path)}` });
    return { ...res, g, o, filename };
  },
  async logic(s, r, seed) { return SC.run(s, r, seed); },
  // the same module is evaluated again, or its coverage was already there
  async reload(s, r, seed) {
    const g = make(seed, r, { mode: 'module' }); g.times = 2 + r.n(2); const o = options(r, g);
    const res = await program(s, g, { options: o, filename: r.pick(FILES) });
    for (const v of res.out || []) if (v.prop === 'count') v.prop = 'template', v.msg = `evaluated ${g.times} times: ` + v.msg;
    return { ...res, g, o };
  },
  // two files in one realm keep their own counts
  async pair(s, r, seed) {
    const mode = r.pick(['script', 'module']);
    const gs = [make(seed * 2, r, { mode, hints: false, strict: false }), make(seed * 2 + 1, r, { mode, hints: false, strict: false, base: 500000 })];
    const o = { reportLogic: r.p(0.3), debugInitialCoverageComment: true };
    const names = ['one.js', 'two.js']; const as = [], out = [];
    for (let i = 0; i < 2; i++) { const a = await s.ask({ code: gs[i].code, filename: names[i], mode, options: o }); if (a.error || a.panic !== undefined) return { skip: 'pair' }; as.push(a); }
    const g = { code: gs[0].code + '\n// ---- second file\n' + gs[1].code };
    const res = await run(as.map(a => a.code), mode, seed, 1);
    if (res.syntax) return { skip: 'pair syntax', out };
    const cov = JSON.parse(JSON.stringify(vm.runInContext('globalThis.__coverage__ || {}', res.ctx)));
    for (let i = 0; i < 2; i++) {
      const d = cov[names[i]];
      if (!d && res.thrown[i]) continue; // ended before its first counter: nothing to count
      if (!d) { out.push({ prop: 'history', msg: `two files in one realm: ${names[i]} is not in the coverage object` }, { prop: 'template', msg: `two files in one realm: ${names[i]} is not in the coverage object` }); continue; }
      for (const v of judge(gs[i].exp, d, res.trace, o)) if (v.prop === 'count' || v.prop === 'truthy') out.push({ prop: 'history', msg: `two files in one realm: ${names[i]}: ${v.msg}` }, { prop: 'template', msg: `two files in one realm: ${names[i]}: ${v.msg}` });
    }
    if (Object.keys(cov).length > 2) out.push({ prop: 'template', msg: 'more files than were loaded: ' + Object.keys(cov) });
    return { out, g, o, a: { code: as.map(a => a.code).join('\n// ---- second file\n') } };
  },
  // what is reported for a statement does not depend on its neighbours
  async compose(s, r, seed) {
    let g;
    if (r.p(0.6)) g = make(seed, r, { dense: false });
    else {
      const n = 2 + r.n(3); let code = ''; const items = [], names = new Set();
      for (let i = 0; i < n; i++) {
        let x = r.pick(corpus.es.concat(corpus.script, SHAPES)); if (/export|import/.test(x) || /^(['"]|\/\* istanbul ignore file)/.test(x)) x = 'x;';
        if (/^(var|let|const|function|class|async function)/.test(x) || r.p(0.2)) x = `{ ${x} }`;
        if (r.p(0.4)) x = r.pick(['/* istanbul ignore next */ ', '// istanbul ignore next\n', '/* istanbul ignore if */ ', '/* istanbul ignore else */ ', '/* istanbul ignore file */ ', '/* x */ ']) + x;
        if (i === 0 && /ignore file/.test(x)) x = 'x;';
        x += '\n;'; items.push([code.length, code.length + x.length]); code += x + '\n';
      }
      g = { code, items, mode: 'script', exp: [] };
    }
    if (g.items.length < 2) return { skip: 'one item' };
    const o = { reportLogic: r.p(0.3), debugInitialCoverageComment: true }, filename = 'f.js';
    const whole = await s.ask({ code: g.code, filename, mode: g.mode, options: o });
    if (!whole.data) return { skip: 'no data' };
    const dirEnd = g.items[0][0];
    const blank = t => t.replace(/[^\n]/g, ' ');
    const bodyOf = c => { const x = c.replace(/^function (cov_\d+)\(\) \{\n[\s\S]*?\n\}\n\1\(\);$/m, ''); return x.length === c.length ? null : x.replace(/(\.(?:s|f|b|bT))\[\d+\]/g, '$1[#]'); };
    let parts = [], bodies = []; const n = g.items.length;
    for (let i = 0; i < n; i++) {
      const [a, b] = g.items[i];
      const code = g.code.slice(0, dirEnd) + blank(g.code.slice(dirEnd, a)) + g.code.slice(a, b) + blank(g.code.slice(b));
      const p = await s.ask({ code, filename, mode: g.mode, options: o });
      if (!p.data) return { skip: 'part: ' + (p.error || p.panic) };
      parts.push(entriesOf(JSON.parse(p.data))); bodies.push(bodyOf(p.code));
    }
    const w = entriesOf(JSON.parse(whole.data)), A = bag(w), B = bag(parts.flat()), out = [];
    for (const k of new Set([...A.keys(), ...B.keys()])) if ((A.get(k) || 0) !== (B.get(k) || 0)) { out.push({ prop: 'compose', msg: `${k}: reported ${A.get(k) || 0} times for the program, ${B.get(k) || 0} times for its statements on their own` }); break; }
    if (!out.length && JSON.stringify(w.filter(x => x[0] === 's')) !== JSON.stringify(parts.flat().filter(x => x[0] === 's'))) out.push({ prop: 'compose', msg: 'statement ids are not in the order of the program' });
    const wb = bodyOf(whole.code);
    if (!out.length && wb !== null && bodies.every(x => x !== null)) {
      const q = z => z.replace(/\s+/g, ''), d0 = await s.ask({ code: g.code.slice(0, dirEnd), filename, mode: g.mode, options: o }), d = q(bodyOf(d0.code || '') || '');
      const x = q(wb), y = bodies.map((z, j) => (j && q(z).startsWith(d) ? q(z).slice(d.length) : q(z))).join(''); let i = 0;
      if (x !== y) { while (x[i] === y[i]) i++; out.push({ prop: 'compose', msg: 'a statement is instrumented differently in the program than on its own', diff: { program: x.slice(Math.max(0, i - 60), i + 60), alone: y.slice(Math.max(0, i - 60), i + 60) } }); }
    }
    return { out, g, o, a: whole };
  },
  async history(s, r, seed) {
    const g = make(seed, r); const o = { ...options(r, g), debugInitialCoverageComment: true }; const filename = r.pick(FILES);
    const req = { code: g.code, filename, mode: g.mode, options: o };
    const a = await s.ask(req); if (a.error) return { skip: a.error };
    SC.past = SC.past || []; const out = [];
    const f = new Server(BIN);                       // a process that has seen nothing
    const b = await f.ask(req); f.end();
    if (a.code !== b.code || a.data !== b.data) out.push({ prop: 'history', msg: 'the output differs from that of a fresh process', diff: { here: firstLine(a.code, b.code), fresh: firstLine(b.code, a.code) } });
    const c = await s.ask(req);
    if (a.code !== c.code || a.data !== c.data) out.push({ prop: 'history', msg: 'instrumenting the same file again gives another output' });
    return { out, g, o, a };
  },
  // a file after one that looks much like it: the same positions, lengths, texts, names, but not the same file
  async twin(s, r, seed) {
    const pad = n => Array.from({ length: n }, () => r.pick([' ', '\n', '\t'])).join('');
    const st = () => r.pick(['a();', 'a;', 'x => x;', 'var b = 1;', 'f(1) || g(2);', 'if (q) r();', 'if (q) r(); else t();', 'for (;;) break;', 'function h() { return 1; }', '(function () {});', 'q ? 1 : 2;', 'switch (q) { case 1: b; }', 'class A { m() {} }', 'var {c = 1} = d;', 'a && b && c;', "'use strict'; a();", '{ a; }', 'l: a();', 'throw a;', 'try { a } catch (e) {}', '`${a}`;']);
    const n = r.n(3), k = r.n(7), b = [], two = [];
    for (let i = 0; i <= n; i++) b.push(st());
    const hint = w => '/* istanbul ' + w + ' */\n';
    const text = h => b.map((x, i) => (i === n && h ? hint(h) : '') + pad(k) + x).join('');
    const h = r.p(0.4) ? [r.pick(['ignore next', 'ignoreZnext', '']), r.pick(['ignore next', 'ignore nexT', 'ignore else'])] : ['', ''];
    const opt = () => ({ debugInitialCoverageComment: true, reportLogic: r.p(0.4), ...(r.p(0.3) ? { coverageVariable: r.pick(['__cov__', '__Cov__', '__cov_']) } : {}), ...(r.p(0.2) ? { ignoreClassMethods: [r.pick(['m', 'n'])] } : {}) });
    const name = r.pick(FILES), same = r.p(0.5), o1 = opt(), o2 = same ? o1 : opt();
    const one = { code: text(h[0]), filename: r.p(0.5) ? name : r.pick(FILES), mode: 'script', options: o1 };
    const req = { code: r.p(0.15) ? one.code : text(h[1]), filename: name, mode: 'script', options: o2 };
    const e = await s.ask(one); if (e.error) return { skip: e.error };
    const a = await s.ask(req); if (a.error) return { skip: a.error };
    const f = new Server(BIN), c = await f.ask(req), out = []; f.end();
    if (a.code !== c.code || a.data !== c.data) out.push({ prop: 'history', msg: 'the output differs from that of a fresh process after a file much like it', before: one, diff: { here: firstLine(a.code, c.code), fresh: firstLine(c.code, a.code) } });
    return { out, g: { code: req.code, mode: 'script', exp: [] }, o: o2, a };
  },
  // two files of much the same name in one realm, the code of the first running after the second was loaded; two versions of one file
  async late(s, r, seed) {
    const base = r.pick(['a.js', 'src/a.js', '/w/src/index.ts', 'C:\\p\\index.js', 'é.js', 'lib/v1/x.mjs']);
    const alike = [x => 'p/' + x, x => x + 'x', x => x.toUpperCase(), x => './' + x, x => x.replace('.', '_'), x => x.replace(/[a-z]/, 'q'), x => x.split('').reverse().join(''), x => x.slice(1), x => x + '?1', x => x.replace(/\//g, '\\'), x => x + ' ', x => x.slice(0, -1), x => x.normalize('NFD') + '\u0301'];
    const two = r.pick(alike)(base), same = r.p(0.3), n = 1 + r.n(3), m = 1 + r.n(3), reportLogic = r.p(0.3);
    const st = k => Array.from({ length: k }, (_, i) => `globalThis.z = ${i};`).join(r.pick(['\n', ' ']));
    const fs2 = two && two !== base && !same ? [base, two] : [base, base], twice = fs2[0] === fs2[1];
    const c1 = twice ? `function f() {} ${st(n)} f();` : `function late() { ${st(n)} }`, c2 = `${st(m)}\n${twice ? '1;' : 'late();'}`;
    const o = { reportLogic, ...(r.p(0.3) ? { coverageVariable: r.pick(['__cov__', 'a b', "it's", '__proto_']) } : {}) }, as = [];
    for (const [i, code] of [c1, c2].entries()) { const a = await s.ask({ code, filename: fs2[i], mode: 'script', options: o }); if (a.error || a.panic !== undefined) return { skip: 'late' }; as.push(a); }
    const res = await run(as.map(a => a.code), 'script', seed, 1), out = [], bad = msg => out.push({ prop: 'history', msg }, { prop: 'template', msg });
    if (res.syntax) bad('does not parse: ' + res.syntax);
    const cov = JSON.parse(JSON.stringify(vm.runInContext(`globalThis[${JSON.stringify(o.coverageVariable || '__coverage__')}] || {}`, res.ctx))), sum = d => d && JSON.stringify(Object.values(d.s));
    const ones = k => JSON.stringify(Array(k).fill(1));
    if (twice) { if (sum(cov[base]) !== ones(m + 1)) bad(`two versions of ${JSON.stringify(base)} in one realm: statements of the second counted ${sum(cov[base])}`); }
    else {
      if (sum(cov[base]) !== ones(n)) bad(`code of ${JSON.stringify(base)} that runs after ${JSON.stringify(two)} was loaded: statements counted ${sum(cov[base])}`);
      if (sum(cov[two]) !== ones(m + 1)) bad(`${JSON.stringify(two)} loaded after ${JSON.stringify(base)}: statements counted ${sum(cov[two])}`);
    }
    return { out, g: { code: c1 + '\n// ---- second file\n' + c2 }, o, a: { code: as.map(a => a.code).join('\n// ---- second file\n') }, filename: fs2.join(', ') };
  },
  // what is a hint and what is not
  async hint(s, r, seed) {
    const ws = () => r.pick([' ', '  ', '\t', ' \t ']), lead = () => r.pick(['', ' ', '  ', '\t']);
    const word = r.pick(['next', 'next', 'if', 'else']);
    const good = () => lead() + 'istanbul' + ws() + 'ignore' + ws() + word + r.pick(['', ' ', ' why', ': reason', '-', '.', '\t', '(x)', ' next', ' else']);
    const bad = () => r.pick([`istanbul ignore ${word}s`, `istanbul ignore ${word}_`, `istanbul ignore${word}`, `istanbulignore ${word}`, `Istanbul ignore ${word}`, `istanbul Ignore ${word}`, `x istanbul ignore ${word}`, `istanbul ignore ${word.toUpperCase()}`, `istanbul ignore`, `* istanbul ignore ${word}`, `istanbul ignore file`, `istanbul ignore x ${word}`, `c8 ignore ${word}`, `istanbul-ignore-${word}`, `istanbul ignore ${word}9`, 'other', '']);
    const isHint = r.p(0.55), noise = r.n(3);
    const cm = t => (r.p(0.6) || /\n/.test(t) ? `/*${t}*/` : `//${t}\n`);
    const cs = []; for (let i = 0; i < noise; i++) cs.push(cm(bad())); if (isHint) cs.splice(r.n(cs.length + 1), 0, cm(good()));
    const C = cs.join(r.pick(['\n', ' ', '\n\n']));
    const pre = r.pick(['', 'T(1);\n', 'function f0() { T(0); }\n']), post = r.pick(['', '\nT(9);', '\nvar z = T(9);']);
    const shape = word === 'next' ? r.pick(['T(5);', 'var a = T(5);', 'let b = () => T(5);', 'function f() { T(5); }', 'class K { m() { T(5); } x = T(6); }', 'for (;;) { T(5); break; }', 'while (C(5)) T(6);', 'if (C(5)) T(6);', 'try { T(5); } catch (e) { T(6); }', 'switch (T(5)) { case 1: T(6); }', 'throw T(5);', 'O(C(5) ? T(6) : T(7));', 'T(5) || T(6);', 'O(function () { T(5); });', 'L: T(5);', 'do T(5); while (C(6));', 'for (var i of [T(5)]) T(6);', 'for (var i in { a: T(5) }) T(6);', 'const c = T(5), d = T(6);', 'TAG`x${T(5)}`;']) : r.pick(['if (C(5)) { T(6); } else { T(7); }', 'if (C(5)) T(6); else T(7);', 'if (C(5)) { T(6); }', 'if (C(5)) T(6);', 'if (C(5) || C(8)) { T(6); } else if (C(9)) T(7); else { T(8); }']);
    const nest = r.n(4);
    const wrapA = ['', 'function w() {\n', 'if (C(2)) {\n', 'for (;;) {\n'][nest], wrapB = ['', '\n}', '\n}', '\n}'][nest];
    const head = pre + wrapA + C + (C ? '\n' : '');
    const mode = r.pick(['script', 'module']);
    const code = head + shape + wrapB + post;
    const o = { debugInitialCoverageComment: true };
    const a = await s.ask({ code, filename: 'f.js', mode, options: o });
    // the same text without any comment, at the same place
    const blank = C.replace(/[^\n]/g, ' ');
    const plainCode = pre + wrapA + blank + (C ? '\n' : '') + shape + wrapB + post;
    const b = await s.ask({ code: plainCode, filename: 'f.js', mode, options: o });
    if (!a.data || !b.data) return { skip: a.error || b.error || 'hint' };
    const pos = i => { const l = code.slice(0, i).split('\n'); return [l.length, l.at(-1).length]; };
    const from = pos(head.length), to = pos(head.length + shape.length);
    const A = entriesOf(JSON.parse(a.data)), B = entriesOf(JSON.parse(b.data)), out = [];
    const within = x => { const m = x.match(/(\d+):(\d+):(\d+):(\d+)/).slice(1).map(Number); const ge = (p, q) => p[0] > q[0] || (p[0] === q[0] && p[1] >= q[1]); return ge([m[0], m[1]], from) && ge(to, [m[2], m[3]]); };
    const bad2 = msg => out.push({ prop: 'hint', msg }, { prop: 'ignore', msg });
    const outA = A.filter(x => !within(x)), outB = B.filter(x => !within(x)), inA = A.filter(within), inB = B.filter(within);
    const eq = (x, y) => JSON.stringify([...x].sort()) === JSON.stringify([...y].sort());
    if (!eq(outA, outB)) bad2(`a comment changed what is reported outside of the statement below it: ${outA.length} entries, ${outB.length} without the comment`);
    if (!isHint) { if (!eq(inA, inB)) bad2(`the comments ${JSON.stringify(C)} are no hint, but what is reported changed`); }
    else if (word === 'next') { if (inA.length) bad2(`below the hint ${JSON.stringify(C)} there is still reported: ${inA[0]}`); }
    else {
      const nb = x => x.filter(y => /^branch if/.test(y));
      const first = l => nb(l).sort((p, q) => +p.match(/(\d+):(\d+)/)[2] - +q.match(/(\d+):(\d+)/)[2])[0];
      const np = l => { const x = first(l); return x ? x.split('[')[1].split(',').length : 0; };
      if (np(inB) !== 2 || np(inA) !== 1) bad2(`below the hint ${JSON.stringify(C)} the if statement has ${np(inA)} paths instead of one`);
    }
    return { out, g: { code }, o, a };
  },
  // a hint in front of a part of a statement: what lies outside of the part is reported as without it
  async part(s, r, seed) {
    const E = () => r.pick(['a', 'b || c', 'd ? e : f', '() => g', 'function () { h; }', 'i => { j; }', '(k && l)', 'm()', '{ n: o || p }', '[q = r]', 'class { s() { t; } }', 'u ?? v', '(w, x)']).replace(/^\{.*\}$/, '($&)'), P = () => r.pick(['a = 1', '{ b = 2 } = {}', '[c = 3]', 'd = () => e', 'f = g || h']), B = () => r.pick(['a;', 'b || c;', 'if (d) e;', 'return;', 'x = () => f;', 'const g = h;', '{ i; }', '']);
    const m = x => '\u0001' + x + '\u0002', l = (f, sep) => { const n = 2 + r.n(2), at = r.n(n); return Array.from({ length: n }, (_, i) => (i === at ? m(f(i)) : f(i))).join(sep); };
    const shape = r.pick([
      () => `function f(${l(P, ', ')}) { ${B()} }`, () => `x = (${l(P, ', ')}) => { ${B()} };`, () => `x = class { m(${l(P, ', ')}) { ${B()} } n() { ${B()} } };`, () => `x = { m(${l(P, ', ')}) { ${B()} }, n() { ${B()} } };`,
      () => `x = [${l(E, ', ')}];`, () => `y(${l(E, ', ')});`, () => `x = { ${l(i => `p${i}: ${E()}`, ', ')} };`, () => `x = { ${l(i => `p${i}() { ${B()} }`, ', ')} };`, () => `class K { ${l(i => `p${i}() { ${B()} }`, ' ')} }`, () => `class K { ${l(i => `p${i} = ${E()};`, ' ')} }`,
      () => `switch (a) { ${l(i => `case ${i}: ${B().replace('return;', 'break;')}`, ' ')} }`, () => `x = a ? ${m(E())} : ${E()};`, () => `x = a ? ${E()} : ${m(E())};`, () => `z = a && ${m('b')} && c(() => d);`, () => `var x = ${m(E())}, y = ${E()};`, () => `var { ${l(i => `v${i} = ${E()}`, ', ')} } = o;`, () => `[${l(i => `v${i} = ${E()}`, ', ')}] = o;`,
      () => `x = () => ${m(E())};`, () => 'x = `${' + m(E()) + '} ${' + E() + '}`;', () => `for (var i = ${m(E())}; ${E()}; ) { ${B().replace('return;', '')} }`, () => `if (a) ${m('{ b || c; }')} else { ${B().replace('return;', '')} }`, () => `try { ${m('a || b;')} c || d; } catch (e) { ${B().replace('return;', '')} } finally { g || h; }`, () => `x = y ? (${m(E())}, ${E()}) : z;`, () => `x(...${m(E())}, ${E()});`, () => `new X(${l(E, ', ')});`, () => `x = ${'{ get p() { ' + B() + ' }, ' + m('set p(v) { ' + B() + ' }') + ' }'};`, () => `while (a) { ${m('b || c;')} d || e; }`, () => `L: { ${m('b || c;')} d || e; }`, () => `class K { static { ${m('a || b;')} c || d; } }`,
    ])();
    const after = r.pick(['a || b;', 'function w() { c; }', 'if (d) e;', 'x = f ? g : h;', 'var z = () => { i; };']), before = r.pick(['', 'a || b;\n', 'function v() { c; }\n']);
    const full = before + shape + '\n' + after, i = full.indexOf('\u0001'), j = full.indexOf('\u0002') - 1, text = full.replace(/[\u0001\u0002]/g, '');
    const h = r.pick(['/* istanbul ignore next */', '/*istanbul ignore next: x*/', '/* istanbul ignore next */', '/* istanbul ignore if */', '/* istanbul ignore else */']);
    const mk = c => text.slice(0, i) + c + ' ' + text.slice(i), code = mk(h), o = { debugInitialCoverageComment: true, reportLogic: r.p(0.3) };
    const mode = 'script', a = await s.ask({ code, filename: 'f.js', mode, options: o }), b = await s.ask({ code: mk(h.replace(/./g, ' ')), filename: 'f.js', mode, options: o });
    if (!a.data || !b.data) return { skip: a.error || b.error || 'part' };
    const pos = k => { const q = code.slice(0, k).split('\n'); return [q.length, q.at(-1).length]; }, from = pos(i), to = pos(j + h.length + 1), lt = (p, q) => p[0] < q[0] || (p[0] === q[0] && p[1] < q[1]);
    const le = (p, q) => !lt(q, p);
    const keep = x => { const [sl, sc, el, ec] = x.match(/(\d+):(\d+):(\d+):(\d+)/).slice(1).map(Number); const inside = le(from, [sl, sc]) && le([el, ec], to), over = le([sl, sc], from) && le(to, [el, ec]); return !inside && !(over && /^branch/.test(x)); };
    const A = entriesOf(JSON.parse(a.data)).filter(keep).sort(), B2 = entriesOf(JSON.parse(b.data)).filter(keep).sort(), out = [];
    if (JSON.stringify(A) !== JSON.stringify(B2)) { const x = B2.find(z => !A.includes(z)) || A.find(z => !B2.includes(z)) || 'an entry'; for (const prop of ['hint', 'ignore']) out.push({ prop, msg: `the hint ${JSON.stringify(h)} changes what is reported outside of the part behind it: ${x}` }); }
    return { out, g: { code }, o, a };
  },
  async file(s, r, seed) {
    const g = make(seed, r, { hints: false });
    const good = r.p(0.6);
    const t = good ? r.pick([' istanbul ignore file ', 'istanbul ignore file', '\tistanbul  ignore\tfile: generated', 'istanbul ignore file.']) : r.pick(['istanbul ignore files', ' x istanbul ignore file', 'istanbul ignore next_file', 'Istanbul ignore file', 'istanbul file ignore', 'x\n istanbul ignore file', '*\n * x\nistanbul ignore file\n', 'Copyright\n\nistanbul ignore file: no']);
    const c = /\n/.test(t) || r.p(0.5) ? `/*${t}*/` : `//${t}\n`;
    const code = r.p(0.3) ? `/* head */ ${c}\n${g.code}` : `${c}\n${g.code}`;
    const a = await s.ask({ code, filename: 'f.js', mode: g.mode, options: { debugInitialCoverageComment: true }, untouched: true });
    if (a.error) return { skip: a.error };
    const out = [], bad = msg => out.push({ prop: 'hint', msg }, { prop: 'ignore', msg });
    if (good && (!a.untouched || a.data)) bad(`${JSON.stringify(c)} at the top: the file is changed all the same`);
    if (!good && a.untouched) bad(`${JSON.stringify(c)} at the top is no hint, but the file is not instrumented`);
    return { out, g: { code }, a };
  },
  // more than 65536 of one kind of entry, on one line or on as many lines
  async big(s, r, seed) {
    const n = 66000; const kind = ['s', 's', 'f', 'b', 'path'][(+SEED) % 8] || 's'; const lines = +SEED % 8 === 1;
    const unit = { s: 'x;', f: 'y=()=>0;', b: 'x?y:z;', path: '' }[kind]; const sep = lines ? '\n' : '';
    const code = kind === 'path' ? 'switch (x) {' + ('case 1:' + sep).repeat(n) + '}' : (unit + sep).repeat(n);
    const o = { debugInitialCoverageComment: true, reportLogic: false };
    const a = await s.ask({ code, filename: 'f.js', mode: 'script', options: o });
    if (a.error) return { skip: 'big ' + a.error };
    const g = { code: code.slice(0, 200) + ` /* ... ${n} times */` };
    if (a.panic !== undefined) return { out: [{ prop: 'panic', msg: 'the instrumenter panicked: ' + a.panic }], g, o };
    const d = JSON.parse(a.data), out = structural(a.code, d).map(v => v);
    if (kind !== 'path') {
      const per = unit.length, m = kind === 's' ? d.statementMap : kind === 'f' ? d.fnMap : d.branchMap;
      const off = { s: [0, 2], f: [6, 7], b: [0, 5] }[kind];
      if (Object.keys(m).length !== n) out.push({ prop: 'complete', msg: `${n} entries expected, ${Object.keys(m).length} reported` });
      for (const i of Object.keys(m)) {
        const l = kind === 's' ? m[i] : m[i].loc;
        const want = lines ? [+i + 1, off[0], +i + 1, off[1]] : [1, i * per + off[0], 1, i * per + off[1]];
        if (key(l) !== want.join(':')) { out.push({ prop: 'loc', msg: `entry ${i} of a file of ${n} is at ${want.join(':')}, reported at ${key(l)}` }); break; }
      }
    } else if ((d.b[0] || []).length !== n) out.push({ prop: 'complete', msg: `${n} cases, ${(d.b[0] || []).length} reported` });
    for (const v of out.slice()) if (v.prop === 'sites') { out.push({ prop: 'count', msg: v.msg }); break; }
    return { out, g, o };
  },
  async corpus(s, r, seed) {
    const mode = r.pick(['script', 'module', 'ts', 'ts', 'jsx', 'ext', 'tsx']);
    const pool = mode === 'script' ? corpus.es.filter(x => !/^\/?.*\b(export|import)\b/.test(x)).concat(corpus.script) : mode === 'ts' ? corpus.es.concat(corpus.ts, corpus.ts) : mode === 'jsx' ? corpus.es.concat(corpus.jsx, corpus.jsx) : mode === 'ext' ? corpus.es.concat(corpus.jsx, corpus.ext, corpus.ext, corpus.ext) : mode === 'tsx' ? corpus.es.concat(corpus.tsx, corpus.tsx, corpus.ts) : corpus.es;
    const n = r.p(0.4) ? 1 : 1 + r.n(5); let code = '';
    for (let i = 0; i < n; i++) {
      let x = r.pick(pool);
      if (!/export|import|namespace|module|declare|^type|^interface|enum|abstract|@/.test(x)) x = r.pick([() => x, () => x, () => `function w${i}() { ${x} }`, () => `if (q) { ${x} }`, () => `const k${i} = () => { ${x} };`, () => `class Q${i} { m() { ${x} } get p() { ${x} } static s = () => { ${x} } }`, () => `o = { m() { ${x} } };`, () => `switch (q) { case 1: ${x} }`, () => `try { ${x} } finally { }`])();
      code += x + '\n';
    }
    const o = { reportLogic: r.p(0.5), debugInitialCoverageComment: true };
    const a = await s.ask({ code, filename: 'f.js', mode, options: o, erase: true });
    if (a.error) return { skip: 'corpus' };
    const g = { code }; const out = [];
    if (a.panic !== undefined) return { out: [{ prop: 'panic', msg: 'the instrumenter panicked: ' + a.panic }], g, o };
    if (a.directives) out.push({ prop: 'directive', msg: 'directives: ' + a.directives });
    if (a.erased_original) out.push({ prop: 'erase', msg: 'without its counters the instrumented program is not the original one', diff: [a.erased_original, a.erased_instrumented] });
    if (a.data && mode !== 'ts' && mode !== 'tsx') out.push(...structural(a.code, JSON.parse(a.data)));
    return { out, g, o, a };
  },
};
function sorted(x) { if (x && typeof x === 'object' && !Array.isArray(x)) { const o = {}; for (const k of Object.keys(x).sort()) o[k] = sorted(x[k]); return o; } return x; }
function firstLine(a, b) { const x = String(a).split('\n'), y = String(b).split('\n'); for (let i = 0; i < x.length; i++) if (x[i] !== y[i]) return `${i + 1}: ${x[i]}`; return ''; }

(async () => {
  const s = new Server(BIN); const end = Date.now() + SECS * 1000;
  let n = 0, i = 0, sample = ''; const seen = new Set(); const skips = {}, stat = {};
  const names = Object.keys(W), total = names.reduce((a, k) => a + W[k], 0);
  const max = +(process.env.MAX || 1e9);
  while (Date.now() < end && i < max) {
    const seed = (+SEED * 1000003 + i++) >>> 0; const r = new Rng(seed ^ 0x5bd1e995);
    let t = r.n(total), name; for (name of names) { t -= W[name]; if (t < 0) break; }
    if (i === 1 && BIG.includes(PROP) && +SEED % 8 < 5) name = 'big'; // once per process
    let res; try { res = await SC[name](s, r, seed); } catch (e) { res = { out: [], err: e }; if (process.env.DEBUG) console.log(name, seed, e); }
    if (s.dead) { res = { ...res, out: [{ prop: 'panic', msg: 'the instrumenter process died' }] }; }
    if (res.err instanceof TypeError && /oracle\.js|main\.js/.test((res.err.stack || '').split('\n')[1]) && UNREAD.includes(PROP)) res = { g: LAST, out: [{ prop: kinds ? kinds[0] : 'step', msg: 'the coverage data has not the form of coverage data: ' + res.err.message }] };
    if (res.err) { (skips['error ' + res.err.message] = (skips['error ' + res.err.message] || 0) + 1); continue; }
    if (res.skip) { skips[name + ' ' + res.skip] = (skips[name + ' ' + res.skip] || 0) + 1; if (!res.out) continue; }
    n++;
    if (n <= 3000 && res.g) seen.add(crypto.createHash('md5').update(res.g.code).digest('hex'));
    if (!sample && res.g && res.g.code.length < 900) sample = `[${name}] ` + res.g.code;
    if (process.env.DEBUG) { for (const v of res.out || []) { const kk = name + ' ' + v.prop + ' ' + v.msg.replace(/\d+/g, '#').slice(0, 150); stat[kk] = stat[kk] || [0, seed, res.g && res.g.code.slice(0, 600), v, JSON.stringify(res.o)]; stat[kk][0]++; } continue; }
    const bad = (res.out || []).find(v => !kinds || kinds.includes(v.prop));
    if (bad) {
      fs.writeFileSync(OUT, JSON.stringify({ what: bad.msg, scenario: name, seed, mode: res.g && res.g.mode, options: res.o, filename: res.filename, source: res.g && res.g.code, detail: bad.diff, instrumented: res.a && res.a.code }, null, 1));
      s.end(); process.exit(3);
    }
    if (s.dead) break;
  }
  if (process.env.DEBUG) { console.log(n, i, skips); for (const [k, v] of Object.entries(stat).sort((a, b) => b[1][0] - a[1][0]).slice(0, 30)) console.log(v[0], k, '\n    ', v[1], v[4], '\n' + v[2], JSON.stringify(v[3]).slice(0, 900)); }
  fs.writeFileSync(OUT, JSON.stringify({ evaluations: n, distinct_in_first_3000: seen.size, sample, skips }));
  s.end(); process.exit(0);
})();
