process.on('unhandledRejection', () => {});
const { Gen, Rng } = require('./gen.js'); const { Server } = require('./server.js'); const { program } = require('./oracle.js');
(async () => {
  const bin = '/verif/build/replay-instr/debug/replay-instr'; const s = new Server(bin);
  const [from, to] = [+process.argv[2], +process.argv[3]]; const only = process.argv[4]; const stat = {}; let shown = 0, ran = 0, skip = {};
  for (let seed = from; seed < to; seed++) {
    const r = new Rng(seed); const mode = r.pick(['script', 'script', 'module']);
    const o = { mode, hints: r.p(0.3), strict: r.p(0.2) && mode === 'script', dense: r.p(0.2), size: 20 + r.n(100) };
    const rl = process.env.RL === "0" ? false : r.p(0.25);
    const g = new Gen(seed, o).program(); g.mode = mode; g.seed = seed; g.times = 1;
    let res; try { res = await program(s, g, { options: { reportLogic: rl } }); } catch (e) { console.log('seed', seed, e); continue; }
    if (res.skip) { skip[res.skip] = (skip[res.skip] || 0) + 1; if (only === 'skip' && shown++ < 3) console.log(seed, res.skip, g.code); continue; }
    ran++;
    for (const v of res.out) { const kk = v.prop + ' ' + v.msg.replace(/\d+/g, '#'); stat[kk] = (stat[kk] || 0) + 1; if ((only === v.prop || only === String(seed)) && shown++ < 4) console.log('=== seed', seed, mode, JSON.stringify(o), v, '\n' + g.code.split('\n').map((l, i) => (i + 1) + ': ' + l).filter((l, i) => { const m = v.msg.match(/at (\d+):/); return only === String(seed) || !m || (i > +m[1] - 9 && i < +m[1] + 8); }).join('\n'), only === String(seed) ? res.a && res.a.code : ''); }
  }
  console.log(ran, skip); for (const [k, n] of Object.entries(stat).sort((a, b) => b[1] - a[1]).slice(0, 40)) console.log(n, k);
  s.end();
})();
