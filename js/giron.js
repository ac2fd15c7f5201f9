'use strict';
// Synchronous client of the giron-server process (see harness/src/main.rs).
const fs = require('fs'), path = require('path'), os = require('os'), cp = require('child_process');
const BIN = process.env.GIRON_SERVER || path.join(__dirname, '..', 'harness', 'target', 'release', 'giron-server');

class Giron {
  constructor(opts = {}) {
    this.cpu = opts.cpu || 10;
    this.dir = fs.mkdtempSync(path.join(os.tmpdir(), 'giron-'));
    this.pipes = []; this.made = 0;
    this.calls = 0; this.restarts = 0;
    this.start();
    process.on('exit', () => this.close());
  }
  // Every server has pipes of its own: an old one may not have ended yet.
  fifos() {
    for (const f of [this.req, this.resp]) if (f) try { fs.unlinkSync(f); } catch (e) {}
    if (!this.pipes.length) {
      const k = this.made ? 64 : 2; // in batches, once it is clear that there are restarts
      for (let i = 0; i < k; i++) this.pipes.push(path.join(this.dir, 'p' + this.made++));
      cp.execFileSync('mkfifo', this.pipes);
    }
    this.req = this.pipes.pop(); this.resp = this.pipes.pop();
  }
  start() {
    this.fifos();
    this.child = cp.spawn('/bin/sh', ['-c', `exec "$0" <"$1" >"$2" 2>/dev/null`, BIN, this.req, this.resp],
      { stdio: 'ignore', env: Object.assign({}, process.env, { GIRON_CPU_LIMIT: String(this.cpu) }) });
    this.child.unref();
    this.w = fs.openSync(this.req, 'w');
    this.r = fs.openSync(this.resp, 'r');
  }
  stop() {
    try { fs.closeSync(this.w); } catch (e) {}
    try { fs.closeSync(this.r); } catch (e) {}
  }
  close() {
    if (!this.dir) return;
    this.stop();
    try { fs.rmSync(this.dir, { recursive: true, force: true }); } catch (e) {}
    this.dir = null;
  }
  readN(n) {
    const b = Buffer.allocUnsafe(n); let o = 0;
    while (o < n) {
      const k = fs.readSync(this.r, b, o, n - o, null);
      if (k === 0) return null;
      o += k;
    }
    return b;
  }
  raw(flags, src) {
    this.calls++;
    const body = typeof src === 'string' ? Buffer.from(src, 'utf8') : src;
    const b = Buffer.allocUnsafe(5 + body.length);
    b[0] = flags; b.writeUInt32LE(body.length, 1); body.copy(b, 5);
    try {
      let o = 0;
      while (o < b.length) o += fs.writeSync(this.w, b, o, b.length - o);
    } catch (e) { this.restart(); return { k: 'crash' }; }
    const h = this.readN(4);
    if (!h) { this.restart(); return { k: 'crash' }; }
    const body2 = this.readN(h.readUInt32LE(0));
    if (!body2) { this.restart(); return { k: 'crash' }; }
    const r = JSON.parse(this.text = body2.toString('utf8'));
    if (r.k === 'hang' || r.k === 'budget') this.restart();
    return r;
  }
  restart() { this.restarts++; this.stop(); this.start(); }
  // A process as good as new.
  fresh() { fs.writeSync(this.w, Buffer.from([255, 0, 0, 0, 0])); }
  // One parse. A crash/hang is only reported after it was reproduced on a fresh server.
  parse(src, goal, o = {}) {
    const flags = (goal === 'module' ? 1 : 0) | (o.dbg ? 2 : 0) | (o.noast ? 4 : 0);
    let r = this.raw(flags, src);
    if (r.k === 'crash' || r.k === 'hang') {
      const r2 = this.raw(flags, src);
      if (r2.k !== r.k) r = this.raw(flags, src);
    }
    return r;
  }
  // Parses [{src, goal}...] at the same time, each `rounds` times on a thread of its own.
  together(list, rounds) {
    const bs = [Buffer.from([rounds])];
    for (const x of list) { const b = Buffer.from(x.src, 'utf8'), h = Buffer.alloc(5); h[0] = x.goal === 'module' ? 1 : 0; h.writeUInt32LE(b.length, 1); bs.push(h, b); }
    return this.raw(8, Buffer.concat(bs));
  }
  threads(src, goal, n) { return this.raw((goal === 'module' ? 1 : 0) | (n << 4), src); }
}
module.exports = { Giron, BIN };
