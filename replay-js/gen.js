'use strict';
// Random programs whose own trace calls say how often each construct ran.
//
// T(k,v)  records event "k", returns v (or a small value)
// C(k)    records "k" and "kt" or "kf", returns that boolean
// V(k)    records "k", returns a value of mixed truthiness (null, [], {}, 0, 'x', ...)
// N(k,n)  records "k", returns an integer below n
//
// Alongside the text the generator writes what the instrumenter must report:
//   {kind:'s', range, keys, must}            keys: trace keys whose sum is the execution count, null = unknown
//   {kind:'f', range(body), decl, name, keys, must}
//   {kind:'b', type, range, paths:[{range, keys}], must}
//   {kind:'l', range(leaf), keys, must}      operand of a logical expression or a default value
//   {kind:'x', range}                        nothing may be reported inside (ignore hint)
class Rng {
  constructor(seed) { this.s = (seed ^ 0x9e3779b9) >>> 0; for (let i = 0; i < 4; i++) this.u(); }
  u() { let t = (this.s = (this.s + 0x6d2b79f5) | 0); t = Math.imul(t ^ (t >>> 15), t | 1); t ^= t + Math.imul(t ^ (t >>> 7), t | 61); return ((t ^ (t >>> 14)) >>> 0) / 4294967296; }
  n(k) { return Math.floor(this.u() * k); }
  p(x) { return this.u() < x; }
  pick(a) { return a[this.n(a.length)]; }
}

class Gen {
  constructor(seed, opts) {
    this.r = new Rng(seed);
    this.o = opts || {};
    this.mode = this.o.mode || 'script';
    this.out = []; this.line = 1; this.col = 0; this.ind = 0;
    this.exp = []; this.k = this.o.base || 0; this.names = this.o.base || 0; this.items = [];
    this.fns = [[]];      // callable functions in scope: {name, kind}
    this.vars = [['g0', 'g1']];
    this.budget = this.o.size || 60;
  }
  w(s) {
    this.flush();
    // a `;` after a statement that left its own out would become part of that statement
    if (this.asi && /\S/.test(s) && !/^\s*\/[*\/]/.test(s)) { this.asi = false; s = s.replace(/^(\s*);/, '$1{}'); }
    this.out.push(s);
    for (let i = 0; i < s.length; i++) { if (s[i] === '\n') { this.line++; this.col = 0; } else this.col++; } // columns are UTF-16 units
  }
  nl() { this.w(this.r.p(this.o.dense ? 0.6 : 0.04) ? ' ' : '\n' + ' '.repeat(Math.min(this.ind, 12))); }
  forceNl() { this.w('\n' + ' '.repeat(Math.min(this.ind, 12))); }
  flush() { if (this.needNl) { this.needNl = false; this.w('\n' + ' '.repeat(Math.min(this.ind, 12))); } }
  at() { this.flush(); return [this.line, this.col]; }
  span(f) { const a = this.at(); f(); return [a[0], a[1], this.line, this.col]; }
  key() { return ++this.k; }
  name(p) { return p + (++this.names); }
  get text() { return this.out.join(''); }
  E(e) { this.exp.push(e); return e; }

  // ---------------------------------------------------------------- expressions
  // c: {may, async, gen, strict, noFn}
  leaf(c) {
    const r = this.r;
    switch (r.n(10)) {
      case 0: this.w(String(r.n(9))); break;
      case 1: this.w(r.pick(["'s'", "'é→ß'", "'漢字'", "'e\u0301\u200b'", "'🙂'", '"\t"',  '""', 'null', 'undefined', 'true', '1.5', '/a/g', '[]', '`t`'])); break;
      case 2: case 3: this.w(r.pick(this.vars.flat())); break;
      default: this.w(`T(${this.key()})`);
    }
  }
  paren(c, f) { this.w('('); if (this.r.p(0.1)) this.forceNl(); f(); this.w(')'); }
  args(c, d) {
    const n = this.r.n(3);
    for (let i = 0; i < n; i++) { if (i) this.w(', '); if (this.r.p(0.08)) { this.w('...['); this.expr(d - 1, c); this.w(']'); } else this.expr(d - 1, c); }
  }
  cond(d, c) {
    // test ? cons : alt
    const k = this.key();
    const e = { kind: 'b', type: 'cond-expr', must: !c.may, paths: [] };
    const hintA = this.o.hints && this.r.p(0.1), hintB = this.o.hints && this.r.p(0.1);
    e.range = this.span(() => {
      this.w(`C(${k}) ? `);
      const arm = (hint, key) => {
        if (hint) { this.forceNl(); this.w('/* istanbul ignore next */ '); }
        // only what an arm is made of is asked for below: an ignored arm has no path
        const range = this.span(() => this.expr(d - 1, hint ? { ...c, may: true } : c));
        if (!hint) e.paths.push({ range, keys: [key] });
        else e.noPath = true;
      };
      arm(hintA, k + 't'); this.w(this.r.p(0.2) ? '\n : ' : ' : '); arm(hintB, k + 'f');
    });
    this.E(e);
  }
  logical(d, c, top = true) {
    const all = this.o.hints && this.r.p(0.06); let live = false;
    const operand = (first) => {
      if (!all && d > 0 && this.r.p(0.3)) {
        if (this.r.p(0.7)) { this.w('('); live = this.logical(d - 1, c, false) || live; this.w(')'); }
        else { this.w('I('); live = this.logical(d - 1, c, false) || live; this.w(')'); }   // nested below a call
        return;
      }
      const k = this.key();
      const hint = all || (!first && this.o.hints && this.r.p(0.1));
      if (hint) { this.forceNl(); this.w('/* istanbul ignore next */ '); }
      let bt = false;
      const range = this.span(() => {
        const r = this.r, m = { ...c, may: true };
        switch (r.n(d > 0 ? 11 : 6)) {
          case 0: this.w(`(V(${k}))`); bt = true; break;
          case 1: this.w(`!V(${k})`); break;
          case 2: this.w(`[V(${k})]`); break;
          case 3: this.w(`I(V(${k}))`); bt = true; break;
          case 6: this.w(`I(V(${k}), `); this.exprNoLogical(d - 1, m); this.w(')'); break;
          case 7: this.w(`({ a: V(${k}), b: `); this.exprNoLogical(d - 1, m); this.w(' })'); break;
          case 8: {
            this.w('('); const e = { kind: 'b', type: 'cond-expr', must: false, paths: [] };
            e.range = this.span(() => { this.w(`V(${k}) ? `); e.paths.push({ range: this.span(() => this.exprNoLogical(d - 1, m)), keys: null }); this.w(' : '); e.paths.push({ range: this.span(() => this.exprNoLogical(d - 1, m)), keys: null }); });
            this.E(e); this.w(')'); break;
          }
          case 9: this.w(`(V(${k}), `); this.exprNoLogical(d - 1, m); this.w(')'); break;
          default: this.w(`V(${k})`); bt = true;
        }
      });
      if (!hint) live = true;
      this.E(hint ? { kind: 'n', range } : { kind: 'l', range, keys: [String(k)], must: !c.may, bt: bt ? [k + 'n'] : null });
    };
    const op = this.r.pick(this.o.nullish === false ? ['&&', '||'] : ['&&', '||', '??']);
    const range = this.span(() => {
      operand(true);
      const n = 1 + this.r.n(2);
      for (let i = 0; i < n; i++) { this.w(` ${op} `); operand(); }
    });
    this.E({ kind: 'b', type: 'binary-expr', range, must: top && !c.may && live, anyPaths: true });
    return live;
  }
  exprNoLogical(d, c) { const s = this.o.logical; this.o.logical = false; this.expr(d, c); this.o.logical = s; }
  expr(d, c) {
    const r = this.r;
    if (d <= 0 || this.budget <= 0) return this.leaf(c);
    this.budget--;
    switch (r.n(22)) {
      case 0: case 1: return this.paren(c, () => this.cond(d, c));
      case 2: case 3: if (this.o.logical === false) return this.leaf(c); return this.paren(c, () => this.logical(d - 1, c));
      case 4: this.w('I('); this.args(c, d); this.w(')'); return;
      case 5: { const f = this.fns.flat().filter(x => x.kind === 'f'); if (!f.length) return this.leaf(c); this.w(r.pick(f).name + '('); this.args(c, d); this.w(')'); return; }
      case 6: this.w('['); this.args(c, d); this.w(']'); return;
      case 7: return this.paren(c, () => this.object(d, c));
      case 8: if (c.noFn) return this.leaf(c); this.w(r.p(0.5) ? 'A(' : 'I('); this.arrow(d - 1, c); this.w(')'); return;
      case 9: if (c.noFn) return this.leaf(c); this.w('A('); this.fnExpr(d - 1, c); this.w(')'); return;
      case 10: if (c.noFn) return this.leaf(c); this.w('('); this.fnExpr(d - 1, c, true); this.w(')('); this.args(c, d); this.w(')'); return;
      case 11: if (c.noFn) return this.leaf(c); this.w('new ('); this.klass(d - 1, c, null); this.w(')()'); return;
      case 12: return this.paren(c, () => { this.expr(d - 1, c); this.w(r.pick([' + ', ' - ', ' * ', ' == ', ' !== ', ' < ', ' % '])); this.expr(d - 1, c); });
      case 13: this.w(r.pick(['!', '-', 'typeof ', 'void '])); return this.paren(c, () => this.expr(d - 1, c));
      case 14: return this.paren(c, () => { this.w(r.pick(['g0', 'g1']) + r.pick([' = ', ' += ', ' ??= ', ' ||= ', ' &&= '])); this.expr(d - 1, c); });
      case 15: this.w('`a${'); this.expr(d - 1, c); this.w('}b${'); this.expr(d - 1, c); this.w('}`'); return;
      case 16: this.w('I('); this.expr(d - 1, c); this.w(')?.a?.['); this.expr(d - 1, c); this.w(']'); return;
      case 17: return this.paren(c, () => { this.expr(d - 1, c); this.w(', '); this.expr(d - 1, c); });
      case 18: if (c.gen) return this.paren(c, () => { this.w('yield '); this.expr(d - 1, c); }); return this.leaf(c);
      case 19: if (c.async) { this.w('await '); return this.paren(c, () => this.expr(d - 1, c)); } return this.leaf(c);
      case 20: return this.paren(c, () => { // destructuring assignment with a default value
        this.w('[g0'); this.assignDefault(d, c); this.w(', {a: g1'); this.assignDefault(d, c); this.w('}] = [undefined, {}]');
      });
      default: return this.leaf(c);
    }
  }
  // `<target written already> = default`: swc spans the whole `target = default`
  assignDefault(d, c, targetLen = 2) {
    const k = this.key(); const a = [this.line, this.col - targetLen];
    this.w(' = ');
    const vr = this.span(() => this.w(`T(${k})`));
    this.E({ kind: 'b', type: 'default-arg', range: [...a, this.line, this.col], must: !c.may, paths: [{ range: vr, keys: [String(k)] }] });
    this.E({ kind: 'l', range: vr, keys: [String(k)], must: false });
  }
  object(d, c) {
    const r = this.r, n = r.n(4);
    this.w('{');
    for (let i = 0; i < n; i++) {
      if (i) this.w(', ');
      const key = () => r.pick([() => this.name('p'), () => `'q${r.n(9)}'`, () => String(r.n(9)), () => `['c' + ${r.n(9)}]`])();
      const kk = key(), id = /^p/.test(kk);
      switch (c.noFn ? 0 : r.n(5)) {
        case 0: case 1: this.w(kk + ': '); this.expr(d - 1, c); break;
        case 2: { // method
          const pre = r.pick(['', '', 'async ', '*']);
          this.w(pre); const dr = this.span(() => this.w(kk));
          const hint = false;
          this.fnRest(d - 1, { ...c, async: pre === 'async ', gen: pre === '*' }, { name: id ? kk : 'anonymous', igm: id, decl: id ? dr : [0, 0, 0, 0], must: !c.may }); break;
        }
        case 3: { const s = this.at(); this.w('get '); const dr = this.span(() => this.w(kk)); const e = this.fnRest(d - 1, { ...c, async: false, gen: false, params: 0 }, { name: id ? kk : 'anonymous', igm: id, decl: dr, must: !c.may }); if (!id) e.decl = [...s, this.line, this.col]; break; }
        case 4: { const s = this.at(); this.w('set '); const dr = this.span(() => this.w(kk)); const e = this.fnRest(d - 1, { ...c, async: false, gen: false, params: 1 }, { name: id ? kk : 'anonymous', igm: id, decl: dr, must: !c.may }); if (!id) e.decl = [...s, this.line, this.col]; break; }
      }
    }
    this.w('}');
  }
  params(d, c) {
    const r = this.r; let n = c.params === undefined ? r.n(3) : c.params;
    const names = []; this.w('(');
    for (let i = 0; i < n; i++) {
      if (i) this.w(', ');
      const v = this.name('a'); names.push(v);
      if (c.plainParams) { this.w(v); continue; }
      switch (r.n(6)) {
        case 0: { // a = default
          const k = this.key(); let vr; const pr = this.span(() => { this.w(v + ' = '); vr = this.span(() => this.w(`T(${k})`)); });
          this.E({ kind: 'b', type: 'default-arg', range: pr, must: !c.may, paths: [{ range: vr, keys: [String(k)] }] });
          this.E({ kind: 'l', range: vr, keys: [String(k)], must: false });
          break;
        }
        case 1: { // {x: a = default} = {}
          const k = this.key(); let vr, pr;
          let orr, ir;
          orr = this.span(() => {
            this.w('{x: ');
            pr = this.span(() => { this.w(v + ' = '); vr = this.span(() => this.w(`T(${k})`)); });
            this.w('} = '); ir = this.span(() => this.w('{}'));
          });
          this.E({ kind: 'b', type: 'default-arg', range: pr, must: !c.may, paths: [{ range: vr, keys: [String(k)] }] });
          this.E({ kind: 'l', range: vr, keys: [String(k)], must: false });
          this.E({ kind: 'b', type: 'default-arg', range: orr, must: !c.may, paths: [{ range: ir, keys: null }] });
          this.E({ kind: 'l', range: ir, keys: null, must: false });
          break;
        }
        case 2: { // {a = default} = {}, [{a = default}] = [{}]
          const k = this.key(); const list = r.p(0.3); let vr, pr, ir;
          const orr = this.span(() => {
            this.w(list ? '[{' : '{'); pr = this.span(() => { this.w(v + ' = '); vr = this.span(() => this.w(`T(${k})`)); });
            this.w(list ? '}] = ' : '} = '); ir = this.span(() => this.w(list ? '[{}]' : '{}'));
          });
          this.E({ kind: 'b', type: 'default-arg', range: pr, must: !c.may, paths: [{ range: vr, keys: [String(k)] }] });
          this.E({ kind: 'l', range: vr, keys: [String(k)], must: false });
          this.E({ kind: 'b', type: 'default-arg', range: orr, must: !c.may, paths: [{ range: ir, keys: null }] });
          this.E({ kind: 'l', range: ir, keys: null, must: false });
          break;
        }
        default: this.w(v);
      }
    }
    this.w(')');
    return names;
  }
  // parameters and body of anything function like; spec {name, decl, must}
  fnRest(d, c, spec) {
    const simple = this.r.p(0.5);
    const ps = this.params(d, { ...c, plainParams: simple });
    this.w(' ');
    const e = { kind: 'f', ...spec };
    const k = this.key();
    const inner = { may: c.may, async: c.async, gen: c.gen, strict: c.strict, fn: true, loop: false, labels: [] };
    this.vars.push(ps); this.fns.push([]);
    e.range = this.span(() => {
      this.w('{'); this.ind++;
      if (this.r.p(0.07)) { e.keys = null; }
      else {
        if (simple && this.r.p(0.12)) { if (this.r.p(0.4)) { this.nl(); this.w(this.r.pick(["'use server';", '"ngInject";', "'';"])); } this.nl(); this.w("'use strict';"); inner.strict = true; e.dir = true; }
        this.nl(); this.tstmt(k, inner); e.keys = [String(k)];
        // whether the body is strict can be seen
        if (this.r.p(e.dir ? 0.8 : 0.05)) { this.nl(); const sr = this.span(() => this.w('O(typeof this);')); this.S(sr, [String(k)], inner); }
        this.stmts(d - 1, inner, 1 + this.r.n(3));
      }
      this.ind--; this.w(' }');
    });
    this.vars.pop(); this.fns.pop();
    if (e.decl && (spec.igm || spec.name)) e.full = [e.decl[0], e.decl[1], e.range[2], e.range[3]];
    this.E(e);
    return e;
  }
  fnExpr(d, c, called) {
    const pre = called ? this.r.pick(['', '', 'async ']) : this.r.pick(['', '', '', 'async ', '*', 'async *']);
    const s = this.at(); let dr = null, nm = null;
    this.w(pre.startsWith('async') ? 'async function' + (pre.includes('*') ? '*' : '') : 'function' + (pre === '*' ? '*' : ''));
    if (this.r.p(0.4)) { this.w(' '); nm = this.name('fe'); dr = this.span(() => this.w(nm)); }
    const e = this.fnRest(d, { ...c, async: pre.includes('async'), gen: pre.includes('*') }, { name: nm, igm: !!nm, decl: dr, must: !c.may });
    if (!dr) e.decl = [...s, this.line, this.col];
  }
  arrow(d, c) {
    const s = this.at();
    const as = this.r.p(0.15);
    const e = { kind: 'f', name: null, must: !c.may };
    if (as) this.w('async ');
    if (this.r.p(0.5)) {
      const ps = this.params(d, { ...c, arrow: true, plainParams: this.r.p(0.5) }); this.w(' => ');
      const inner = { may: c.may, loop: false, async: as, gen: false, strict: c.strict, fn: true, labels: [] };
      this.vars.push(ps); this.fns.push([]);
      const k = this.key();
      e.range = this.span(() => {
        this.w('{'); this.ind++; this.nl(); this.tstmt(k, inner); e.keys = [String(k)];
        this.stmts(d - 1, inner, this.r.n(3)); this.ind--; this.w(' }');
      });
      this.vars.pop(); this.fns.pop();
    } else {
      const ps = this.params(d, { ...c, arrow: true, plainParams: this.r.p(0.5) }); this.w(' => ');
      const k = this.key();
      this.vars.push(ps); this.fns.push([]);
      e.range = this.span(() => {
        if (this.r.p(0.3)) this.w(`T(${k})`);
        else { this.w(`(T(${k}), `); this.expr(d - 1, { ...c, async: as, gen: false, noFn: c.noFn }); this.w(')'); }
      });
      this.vars.pop(); this.fns.pop();
      e.keys = [String(k)];
      this.E({ kind: 's', range: e.range, keys: [String(k)], must: e.must });
    }
    e.decl = [...s, this.line, this.col];
    this.E(e);
  }
  klass(d, c, nm) {
    const r = this.r; this.w('class' + (nm ? ' ' + nm : ''));
    const base = this.fns.flat().filter(x => x.kind === 'c');
    let ext = false;
    if (base.length && r.p(0.3)) { this.w(' extends ' + r.pick(base).name); ext = true; }
    this.w(' {'); this.ind++;
    const n = r.n(5);
    const cc = { ...c, async: false, gen: false, strict: true };
    let ctor = false; const pm = [];
    for (let i = 0; i < n; i++) {
      this.nl();
      const st = r.p(0.25) ? 'static ' : '';
      const kindOf = r.n(9);
      const hint = this.o.hints && r.p(0.1) && kindOf !== 6; // hints are looked up for methods and fields
      const start = hint && (this.forceNl(), this.w('/* istanbul ignore next */'), this.forceNl(), this.at());
      const ic = hint ? { ...cc, may: true } : cc;
      const mm = { must: !ic.may };
      switch (kindOf) {
        case 0: case 1: { const pre = r.pick(['', '', 'async ', '*']); this.w(st + pre); const m = this.name('m'); const dr = this.span(() => this.w(m)); this.fnRest(d - 1, { ...ic, async: pre === 'async ', gen: pre === '*' }, { name: m, igm: true, decl: dr, ...mm }); break; }
        case 2: { const m = this.name('m'); this.w(st + 'get '); const dr = this.span(() => this.w(m)); this.fnRest(d - 1, { ...ic, params: 0 }, { name: m, igm: true, decl: dr, ...mm }); break; }
        case 3: { const m = this.name('m'); this.w(st + 'set '); const dr = this.span(() => this.w(m)); this.fnRest(d - 1, { ...ic, params: 1 }, { name: m, igm: true, decl: dr, ...mm }); break; }
        case 4: if (ctor || st) { this.w(';'); break; }
          ctor = true; { const dr = this.span(() => this.w('constructor')); this.w('() '); const k = this.key();
          const range = this.span(() => {
            this.w('{'); this.ind++; this.nl(); this.tstmt(k, ic);
            if (ext) { this.nl(); const sr = this.span(() => this.w('super();')); this.E({ kind: 's', range: sr, keys: [String(k)], must: !ic.may }); }
            this.nl(); this.stmts(d - 1, { ...ic, fn: true, loop: false, noRet: true, labels: [] }, 1 + r.n(2)); this.ind--; this.w('}');
          });
          this.E({ kind: 'f', name: 'constructor', igm: true, full: [dr[0], dr[1], range[2], range[3]], decl: dr, range, keys: [String(k)], ...mm }); break; }
        case 5: { this.w(st); const nm = '#' + this.name('pm'); const dr = this.span(() => this.w(nm)); this.fnRest(d - 1, { ...ic, async: false, gen: false }, { name: nm, decl: dr, ...mm }); if (!st) pm.push(nm); break; }
        case 6: this.w('static {'); this.stmts(d - 1, { ...ic, noRet: true, loop: false, labels: [] }, 1 + r.n(2)); this.w('}'); break;
        case 7: { // string or computed key
          const s = this.at();
          this.w(st + r.pick([`'m${r.n(9)}'`, `['k' + ${r.n(9)}]`])); const e = this.fnRest(d - 1, ic, { name: null, ...mm }); e.decl = [...s, this.line, this.col]; break; }
        case 8: { // field
          const k = this.key(); const nm2 = (r.p(0.3) ? '#' : '') + this.name('x');
          this.w(st + nm2 + ' = ');
          const pick = r.n(4);
          const vr = this.span(() => {
            if (pick < 2) this.w(`T(${k})`);
            else if (pick === 2) { this.w(`(T(${k}), `); this.expr(d - 1, { ...ic, noFn: true }); this.w(')'); }
            else this.arrow(d - 1, { ...ic });
          });
          this.E({ kind: 's', range: vr, keys: pick === 3 ? null : [String(k)], must: pick !== 3 && !ic.may });
          this.w(';'); break;
        }
      }
      if (hint) this.E({ kind: 'x', range: [...start, this.line, this.col] });
    }
    // run private methods
    for (const q of pm) if (r.p(0.6)) { this.nl(); const k = this.key(); this.w(this.name('x') + ' = '); const vr = this.span(() => this.w(`(T(${k}), A(this.${q}))`)); this.E({ kind: 's', range: vr, keys: [String(k)], must: !cc.may }); this.w(';'); }
    this.ind--; this.w('}');
  }

  // ---------------------------------------------------------------- statements
  tstmt(k, c) { const range = this.span(() => this.w(`T(${k});`)); this.E({ kind: 's', range, keys: [String(k)], must: !c.may }); }
  S(range, keys, c) { this.E({ kind: 's', range, keys, must: !c.may }); }
  stmts(d, c, n) { for (let i = 0; i < n; i++) { this.nl(); this.stmt(d, c); } }
  block(d, c, n) { this.w('{'); this.ind++; this.vars.push([]); this.fns.push([]); this.stmts(d, c, n); this.vars.pop(); this.fns.pop(); this.ind--; this.w(' }'); }
  // body of a compound statement; keys: how often it is entered, if known
  body(d, c, keys) {
    if (this.r.p(0.65)) return this.block(d - 1, c, this.r.n(4));
    const k = this.key();
    switch (this.r.n(7)) {
      case 0: if (c.fn && !c.noRet && keys) { const range = this.span(() => this.w(`return T(${k});`)); this.S(range, keys, c); return; } break;
      case 1: if (c.loop && keys) { const w = this.r.pick(['break', 'continue']); const range = this.span(() => this.w(w + ';')); this.S(range, keys, c); return; } break;
      case 2: if (keys && !c.lexicalOnly) { const range = this.span(() => { this.w('var '); const v = this.name('v'); this.w(v + ' = '); const ir = this.span(() => this.w(`T(${k})`)); this.S(ir, [String(k)], c); this.w(';'); }); return; } break;
      case 3: if (keys && d > 0) { this.ifStmt(d - 1, c, keys); return; } break;
      case 4: if (keys && this.r.p(0.4)) { this.w(';'); return; } break;
      case 5: if (keys && this.r.p(0.5)) { const range = this.span(() => this.w(`throw T(${k}, new Error('t${k}'));`)); this.S(range, keys, c); return; } break;
      case 6: if (keys && d > 0) { this.loop(d - 1, c, keys); return; } break;
    }
    this.tstmt(k, c);
  }
  ifStmt(d, c, keys) {
    const k = this.key();
    const hint = this.o.hints && c.hintable && this.r.p(0.12) ? this.r.pick(['if', 'else']) : null;
    if (hint) { this.forceNl(); this.w(`/* istanbul ignore ${hint} */`); this.forceNl(); }
    const c2 = { ...c, hintable: false };
    let consR, altR = null;
    const hasAlt = this.r.p(0.5);
    const range = this.span(() => {
      const simple = this.r.p(0.7);
      if (simple) this.w(`if (C(${k})) `); else { this.w('if ('); const d2 = d; this.expr(d2 - 1, { ...c2 }); this.w(`, C(${k})) `); }
      // an arm that ends in `if` without else must be a block when an else follows
      consR = this.span(() => {
        const ic = hint === 'if' ? { ...c2, may: true } : c2;
        if (hasAlt) this.block(d - 1, ic, this.r.n(4)); else this.body(d, ic, [k + 't']);
      });
      if (hasAlt) {
        this.w(' else ');
        altR = this.span(() => { const ic = hint === 'else' ? { ...c2, may: true } : c2; this.r.p(0.3) && d > 0 ? this.ifStmt(d - 1, ic, [k + 'f']) : this.body(d, ic, [k + 'f']); });
      }
    });
    this.S(range, keys, c);
    const paths = [];
    if (hint !== 'if') paths.push({ range, keys: [k + 't'] });
    if (hint !== 'else') paths.push({ range, keys: [k + 'f'] });
    this.E({ kind: 'b', type: 'if', range, must: !c.may, paths });
    if (hint === 'if') this.E({ kind: 'x', range: consR, proper: true });
    if (hint === 'else' && altR) this.E({ kind: 'x', range: altR, proper: true });
  }
  loop(d, c, keys) {
    const lc = { ...c, loop: true, hintable: false };
    const kb = this.key();
    // the body starts with its own trace unless it is a single statement
    const body = () => {
      if (this.r.p(0.75)) { this.w('{'); this.ind++; this.vars.push([]); this.fns.push([]); this.nl(); this.tstmt(kb, lc); this.stmts(d - 1, lc, this.r.n(3)); this.vars.pop(); this.fns.pop(); this.ind--; this.w(' }'); }
      else this.tstmt(kb, lc);
    };
    const range = this.span(() => {
      switch (this.r.n(6)) {
        case 0: case 1: { const i = this.name('i'); this.w(`for (let ${i} = `); const ir = this.span(() => this.w(`0`)); this.S(ir, keys, c); if (!c.noFn && this.r.p(0.1)) { this.w(`, ${this.name('h')} = `); const hr = this.span(() => this.r.p(0.7) ? this.arrow(d - 1, c) : this.klass(d - 1, c, null)); this.E({ kind: 's', range: hr, keys, must: !c.may }); } this.w(`; ${i} < ${1 + this.r.n(3)}; ${i}++) `); body(); break; }
        case 2: this.w(`while (C(${this.key()})) `); body(); break;
        case 3: this.w('do '); body(); this.w(` while (C(${this.key()}));`); break;
        case 4: { const i = this.name('i'); this.w(`for (const ${i} of [`); this.args({ ...c, noFn: true }, d); this.w(`]) `); body(); break; }
        case 5: { const i = this.name('i'); this.w(`for (${this.r.pick(['var', 'let', 'const'])} ${i} in {a: 1, b: T(${this.key()})}) `); body(); break; }
      }
    });
    this.S(range, keys, c);
  }
  // a statement in a list; precede it with its own trace so that its count is known
  stmt(d, c0) {
    const r = this.r;
    this.budget--;
    const k = this.key(), keys = [String(k)];
    let hint = this.o.hints && r.p(0.07);
    this.tstmt(k, c0);
    this.nl();
    let c = { ...c0, hintable: true };
    let start;
    if (hint) { if (this.col > 24) {} this.forceNl(); this.w(r.pick(['/* istanbul ignore next */', '// istanbul ignore next', '/* istanbul ignore next: reason */'])); this.forceNl(); start = this.at(); c = { ...c, may: true, hintable: false, ignored: true }; }
    this.stmt1(d, c, keys);
    if (hint) this.E({ kind: 'x', range: [...start, this.line, this.col] });
  }
  stmt1(d, c, keys) {
    const r = this.r;
    const deep = d > 0 && this.budget > 0;
    switch (deep ? r.n(24) : r.n(5)) {
      case 0: { const range = this.span(() => { this.w('O('); this.expr(Math.min(d, 2), c); this.w(')'); if (!r.p(0.15)) this.w(';'); }); if (this.out.at(-1) === ')') { this.needNl = true; this.asi = true; } this.S(range, keys, c); return; }
      case 1: { // declaration
        const kind = r.pick(['var', 'let', 'const']); const v = this.name('v');
        this.w(kind + ' ');
        const multi = r.p(0.25);
        if (multi) { const u = this.name('v'); this.w(u + ' = '); const kk = this.key(); const ir = this.span(() => this.w(`T(${kk})`)); this.S(ir, [String(kk)], c); this.w(', '); this.vars.at(-1).push(u); }
        if (r.p(0.15)) {
          const dk = this.key(); this.w(`{x: ${v}`); this.assignDefault(d, c, v.length); this.w('} = ');
          const ir = this.span(() => this.w(`I({})`)); this.S(ir, keys, c);
        } else {
          this.w(v + ' = ');
          const before = this.exp.length; const tlen = this.out.length;
          const ir = this.span(() => this.expr(Math.min(d, 2), c));
          const src = this.out.slice(tlen).join('');
          const hoist = /function|=>|class|\{/.test(src);
          this.E({ kind: 's', range: ir, keys, must: !hoist && !c.may });
        }
        this.w(';'); if (!c.ignored) this.vars.at(-1).push(v); return;
      }
      case 2: if (c.fn && !c.noRet && r.p(0.4)) { const range = this.span(() => { this.w('return '); this.expr(Math.min(d, 2), c); this.w(';'); }); this.S(range, keys, c); return; } this.w(';'); return;
      case 3: if (c.loop && r.p(0.6)) { const range = this.span(() => this.w(r.pick(['break', 'continue']) + ';')); this.S(range, keys, c); return; }
        if ((c.labels || []).length && r.p(0.7)) { const l = r.pick(c.labels); const range = this.span(() => this.w((l.loop ? r.pick(['break ', 'continue ']) : 'break ') + l.name + ';')); this.S(range, keys, c); return; }
        if (r.p(0.3)) { this.w('debugger;'); return; }
        if (r.p(0.4)) { const range = this.span(() => this.w(r.pick(['cov_x()', 'coverage()', 'P.cov_1()']) + r.pick(['.s[0]', '.f[1]', '.b[0][0]', '.s.t']) + r.pick(['++;', '--;', ' += 1;']))); this.S(range, keys, c); return; }
        if (r.p(0.15) && !c.loop) { const range = this.span(() => this.w(`throw T(${this.key()}, new Error('h'));`)); this.S(range, keys, c); return; }
        { const range = this.span(() => this.w(this.r.p(0.5) ? "'str';" : '0;')); this.E({ kind: 's', range, keys, must: false }); return; }
      case 4: { // tagged template as a statement of its own
        const range = this.span(() => { const tr = this.span(() => { this.w('TAG`x${'); this.w(`T(${this.key()})`); this.w('}`'); }); this.E({ kind: 's', range: tr, keys, must: false }); this.w(';'); });
        this.S(range, keys, c); return; }
      case 5: case 6: case 7: this.ifStmt(d - 1, c, keys); return;
      case 8: case 9: case 10: this.loop(d - 1, c, keys); return;
      case 11: { // labelled loop or block
        const name = this.name('L'), isLoop = r.p(0.6), twice = r.p(0.2) ? this.name('L') : null;
        const c2 = { ...c, hintable: false, labels: [...(c.labels || []), { name, loop: isLoop }, ...(twice ? [{ name: twice, loop: isLoop }] : [])] };
        const range = this.span(() => { this.w(name + ': ');
          const inner = () => { if (isLoop) this.loop(d - 1, c2, keys); else this.block(d - 1, c2, 1 + r.n(3)); };
          if (twice) { const ir = this.span(() => { this.w(twice + ': '); inner(); }); this.S(ir, keys, c); } else inner(); });
        this.S(range, keys, c); return; }
      case 12: case 13: { // switch
        const n = r.n(4), def = r.p(0.5) ? r.n(n + 1) : -1; const paths = []; 
        const range = this.span(() => {
          this.w('switch ('); if (r.p(0.8)) this.w(`N(${this.key()}, 4)`); else { this.w('('); this.expr(1, { ...c, noFn: true }); this.w(`, N(${this.key()}, 4))`); } this.w(') {'); this.ind++;
          this.vars.push([]); this.fns.push([]);
          const sc = { ...c, hintable: false, loop: c.loop };
          for (let i = 0; i <= n; i++) {
            if (i === n && def < 0) break;
            this.nl();
            const kk = this.key(); let pk = [String(kk)];
            const cr = this.span(() => {
              if (i === def) this.w('default:'); else if (r.p(0.7)) this.w(`case ${i}:`); else { this.w(`case (`); this.exprNoLogical(1, { ...c, noFn: true, may: true }); this.w(`, ${i}):`); }
              if (r.p(0.15)) { pk = null; }
              else {
                this.nl(); this.tstmt(kk, sc);
                for (let j = r.n(3); j > 0; j--) { this.nl(); this.stmt(d - 1, { ...sc, noLex: true }); }
                if (r.p(0.6)) { const k2 = this.key(); this.nl(); this.tstmt(k2, sc); this.nl(); const br = this.span(() => this.w('break;')); this.S(br, [String(k2)], sc); }
              }
            });
            paths.push({ range: cr, keys: pk });
          }
          this.vars.pop(); this.fns.pop();
          this.ind--; this.w(' }');
        });
        this.S(range, keys, c);
        if (paths.length) this.E({ kind: 'b', type: 'switch', range, must: !c.may, paths });
        return; }
      case 14: case 15: { // try
        const range = this.span(() => {
          this.w('try '); this.w('{'); this.ind++; this.vars.push([]); this.fns.push([]); this.stmts(d - 1, c, 1 + r.n(3));
          if (r.p(0.5)) { const kk = this.key(); this.nl(); this.tstmt(kk, c); this.nl(); const tr = this.span(() => this.w(`throw T(${this.key()}, new Error('e'));`)); this.S(tr, [String(kk)], c); }
          this.vars.pop(); this.fns.pop(); this.ind--; this.w(' }');
          const f = r.n(3);
          if (f !== 0) { this.w(r.p(0.7) ? ' catch (e) ' : ' catch '); this.block(d - 1, c, 1 + r.n(2)); }
          if (f !== 1) { this.w(' finally '); this.block(d - 1, { ...c, labels: [], loop: false, noRet: true }, 1 + r.n(2)); }
        });
        this.S(range, keys, c); return; }
      case 16: case 17: case 18: { // function declaration
        const pre = r.pick(['', '', '', 'async ', '*']);
        const nm = this.name('f');
        this.w((pre === 'async ' ? 'async ' : '') + 'function' + (pre === '*' ? '*' : '') + ' ');
        const dr = this.span(() => this.w(nm));
        this.fnRest(d - 1, { ...c, async: pre === 'async ', gen: pre === '*' }, { name: nm, decl: dr, must: !c.may });
        this.fns.at(-1).push({ name: nm, kind: 'f' });
        // make sure it usually runs
        if (!c.ignored && r.p(0.7)) { this.nl(); const k2 = this.key(); this.tstmt(k2, { may: c.may }); this.nl(); const cr = this.span(() => { this.w(pre === '*' ? `G(${nm}(` : `O(${nm}(`); this.args({ ...c, noFn: true }, 1); this.w('));'); }); this.E({ kind: 's', range: cr, keys: [String(k2)], must: !c.may }); }
        return; }
      case 19: case 20: { const nm = this.name('K'); this.klass(d - 1, c, nm); this.fns.at(-1).push({ name: nm, kind: 'c' }); if (!c.ignored && r.p(0.8)) { this.nl(); const k2 = this.key(); this.tstmt(k2, { may: c.may }); this.nl(); const cr = this.span(() => this.w(`U(${nm});`)); this.E({ kind: 's', range: cr, keys: [String(k2)], must: !c.may }); } return; }
      case 21: this.block(d - 1, c, 1 + r.n(3)); return;
      case 22: if (this.mode === 'script' && !this.o.strict && !c.strict) { const range = this.span(() => { this.w('with ({ g0: 1 }) '); this.body(d - 1, { ...c, hintable: false }, keys); }); this.S(range, keys, c); return; } this.w(';'); return;
      case 23: { // initialiser that is a function or class
        const v = this.name('h'); this.w(r.pick(['const ', 'let ', 'var ']) + v + ' = '); const kk = this.key();
        const ir = this.span(() => [() => this.fnExpr(d - 1, c), () => this.arrow(d - 1, c), () => this.klass(d - 1, c, null)][r.n(3)]());
        this.E({ kind: 's', range: ir, keys, must: !c.may });
        this.w(';'); if (c.ignored) return; this.nl(); const k2 = this.key(); this.tstmt(k2, c); this.nl(); const cr = this.span(() => this.w(`A(${v});`)); this.E({ kind: 's', range: cr, keys: [String(k2)], must: !c.may }); return; }
    }
  }
  program() {
    const r = this.r, n = 2 + r.n(6);
    const c = { strict: this.mode !== 'script' || !!this.o.strict, labels: [] };
    if (this.o.strict) { if (r.p(0.3)) { this.w("'use client';"); this.forceNl(); } this.w("'use strict';"); this.forceNl(); }
    for (let i = 0; i < n; i++) {
      if (i) this.nl();
      this.flush(); const i0 = this.text.length;
      if (this.mode === 'module' && r.p(0.35)) this.moduleItem(2, c); else this.stmt(3, c);
      this.items.push([i0, this.text.length]);
    }
    this.w('\n');
    return { code: this.text, exp: this.exp.filter(e => e.range), items: this.items };
  }
  moduleItem(d, c) {
    const r = this.r;
    switch (r.n(5)) {
      case 0: { // export const: the declaration itself is counted as well
        const k = this.key(); this.tstmt(k, c); this.nl();
        const v = this.name('v'); const kind = r.pick(['const', 'let', 'var']);
        let ir; const range = this.span(() => { this.w(`export ${kind} ${v} = `); ir = this.span(() => this.w(`T(${this.key()})`)); this.w(';'); });
        this.E({ kind: 's', range: ir, keys: [String(k)], must: true });
        this.E({ kind: 's', range, keys: [String(k)], must: kind === 'const', forbid: kind !== 'const' });
        this.vars.at(-1).push(v); return; }
      case 1: { const nm = this.name('f'); this.w('export function '); const dr = this.span(() => this.w(nm)); this.fnRest(d, c, { name: nm, decl: dr, must: true }); this.fns.at(-1).push({ name: nm, kind: 'f' }); return; }
      case 2: { const nm = this.name('K'); this.w('export '); this.klass(d, c, nm); this.fns.at(-1).push({ name: nm, kind: 'c' }); return; }
      case 3: if (!this.dflt) { this.dflt = true; this.w('export default '); if (r.p(0.5)) { this.fnExpr(d, c); } else { this.w('I('); this.expr(2, c); this.w(');'); } } else this.w(';'); return;
      case 4: this.w('export {};'); return;
    }
  }
}
module.exports = { Gen, Rng };
