'use strict';
// Talks to the compiled instrumenter (replay-instr serve).
const { spawn } = require('child_process');
const readline = require('readline');
class Server {
  constructor(bin) {
    this.p = spawn(bin, ['serve'], { stdio: ['pipe', 'pipe', 'inherit'] });
    this.q = [];
    this.dead = false;
    readline.createInterface({ input: this.p.stdout }).on('line', l => { const f = this.q.shift(); if (f) f(JSON.parse(l)); });
    this.p.on('exit', (c, s) => { this.dead = true; for (const f of this.q) f({ panic: `the instrumenter process ended (${c} ${s})` }); this.q = []; });
    this.p.stdin.on('error', () => {});
  }
  ask(req) { if (this.dead) return Promise.resolve({ panic: 'the instrumenter process ended' }); return new Promise(r => { this.q.push(r); this.p.stdin.write(JSON.stringify(req) + '\n'); }); }
  end() { this.p.stdin.end(); }
}
module.exports = { Server };
