'use strict';
// The environment generated programs run in. It records a trace and bounds the run.
const vm = require('vm');
const PRE = `(function (trace, log, rnd, LIMIT) {
  let fuel = LIMIT;
  const rec = k => { trace.push(k); };
  const ev = s => { if (log.length < 4000) log.push(s); };
  const show = (v, d) => {
    d = d || 0;
    try {
      if (v === null || v === undefined) return String(v);
      if (typeof v === 'function') return 'fn';
      if (typeof v === 'symbol') return 'sym';
      if (typeof v === 'bigint') return String(v) + 'n';
      if (typeof v !== 'object') return typeof v + ':' + String(v);
      if (v instanceof Error) return 'err:' + v.name + (v.name === 'Error' ? v.message : '');
      if (d > 2) return '…';
      if (Array.isArray(v)) return '[' + v.map(x => show(x, d + 1)).join(',') + ']';
      return '{' + Object.keys(v).sort().map(k => { let x; try { x = v[k]; } catch (e) { x = e; } return k + ':' + show(x, d + 1); }).join(',') + '}';
    } catch (e) { return 'unshowable'; }
  };
  Function.prototype.toString = function () { return 'fn'; };
  globalThis.T = function (k, v) { rec('' + k); return arguments.length > 1 ? v : k % 7; };
  globalThis.C = function (k) { rec('' + k); const r = fuel-- > 0 && rnd() < 0.55; rec(k + (r ? 't' : 'f')); return r; };
  const pool = [() => 0, () => 1, () => '', () => 'x', () => null, () => undefined, () => [], () => [1], () => ({}), () => ({ a: 1 }), () => new Map(), () => false, () => true, () => NaN, () => (() => 1), () => Object.create({}), () => Object.create(null), () => new (class {})(), () => ({ constructor: 1 }), () => Object.create({ a: 1 }), () => new Number(0), () => [undefined], () => ({ length: 0 }), () => Object.create([])];
  const nontrivial = v => !!v && (!Array.isArray(v) || v.length > 0) && (Object.getPrototypeOf(v) !== Object.prototype || Object.values(v).length > 0);
  globalThis.V = function (k) { rec('' + k); const v = pool[Math.floor(rnd() * pool.length)](); if (nontrivial(v)) rec(k + 'n'); return v; };
  globalThis.N = function (k, n) { rec('' + k); return Math.floor(rnd() * n); };
  globalThis.I = function (x) { return x; };
  globalThis.TAG = function (s) { return s.raw.join('|') + [].slice.call(arguments, 1).map(x => show(x)).join(); };
  globalThis.cov_x = globalThis.coverage = () => CX; const CX = { s: [0, 0], f: [0, 0], b: [[0]] }; globalThis.P = { cov_1: () => CX };
  globalThis.g0 = undefined; globalThis.g1 = { a: { b: 1 } };
  globalThis.O = function (v) { ev('o' + show(v)); if (v && typeof v.then === 'function') { v.then(x => ev('r' + show(x)), e => ev('j' + show(e))); } };
  // drive a generator a few steps
  globalThis.G = function (it) { try { for (let i = 0; i < 4; i++) { const r = it.next(i); ev('y' + show(r.value) + r.done); if (r.done) break; } } catch (e) { ev('x' + show(e)); } };
  // call a function or class, use what it returns
  globalThis.A = function (f) {
    if (fuel-- <= 0) return;
    let r;
    try { r = f(1); } catch (e) { if (/^Class constructor/.test(e && e.message)) return U(f); ev('x' + show(e)); throw e; }
    if (r && typeof r.next === 'function') { if (typeof r[Symbol.iterator] === 'function') G(r); else { r.next(0).then(x => ev('r' + show(x)), e => ev('j' + show(e))); } }
    else O(r);
    return r;
  };
  globalThis.U = function (K) {
    if (fuel-- <= 0) return;
    const each = (o, skip) => {
      for (const n of Object.getOwnPropertyNames(o)) {
        if (skip.includes(n)) continue;
        const d = Object.getOwnPropertyDescriptor(o, n);
        if (typeof d.value === 'function') { try { A(d.value.bind(o)); } catch (e) { ev('x' + show(e)); } }
        if (d.get) { try { O(d.get.call(o)); } catch (e) { ev('x' + show(e)); } }
        if (d.set) { try { d.set.call(o, 3); } catch (e) { ev('x' + show(e)); } }
      }
    };
    let o; try { o = new K(); } catch (e) { ev('x' + show(e)); }
    if (o) { each(o, []); }
    if (K.prototype) each(K.prototype, ['constructor']);
    each(K, ['prototype', 'name', 'length', 'caller', 'arguments']);
  };
  globalThis.SHOW = show;
})`;
const preScript = new vm.Script(PRE);
function rng(seed) { let s = seed >>> 0; return () => { s = (s + 0x6d2b79f5) | 0; let t = Math.imul(s ^ (s >>> 15), s | 1); t ^= t + Math.imul(t ^ (t >>> 7), t | 61); return ((t ^ (t >>> 14)) >>> 0) / 4294967296; }; }
const tick = () => new Promise(r => setImmediate(r));

// run `code` (script or module) `times` in one fresh realm; returns {log, trace, cov}
async function run(code, mode, seed, times, filename) {
  const ctx = vm.createContext({});
  const trace = [], log = [];
  preScript.runInContext(ctx)(trace, log, rng(seed), 150);
  let syntax = null;
  const thrown = [];
  const codes = Array.isArray(code) ? code : Array(times).fill(code);
  for (let i = 0; i < codes.length; i++) {
    const code = codes[i];
    try {
      if (mode === 'script') {
        let s;
        try { s = new vm.Script(code, { filename: 'p.js' }); } catch (e) { syntax = String(e.message); break; }
        s.runInContext(ctx, { timeout: 2000 });
      } else {
        let m;
        try { m = new vm.SourceTextModule(code, { context: ctx }); } catch (e) { syntax = String(e.message); break; }
        await m.link(() => { throw new Error('no imports'); });
        await m.evaluate({ timeout: 2000 });
        log.push('ns' + Object.keys(m.namespace).sort().map(k => { let v; try { v = m.namespace[k]; } catch (e) { v = 'tdz'; } return k + '=' + vm.runInContext('SHOW', ctx)(v); }).join(';'));
      }
      log.push('end');
    } catch (e) { thrown[i] = true; log.push('thrown ' + vm.runInContext('SHOW', ctx)(e)); if (/timed out/.test(e && e.message)) log.push('timeout'); }
    for (let j = 0; j < 3; j++) await tick();
  }
  return { log, trace, syntax, ctx, thrown };
}
module.exports = { run };
