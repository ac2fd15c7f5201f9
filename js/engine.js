'use strict';
// A small property-based testing engine: every random choice goes through a Draw, so that a case
// is a pure function of its seed (or of its tape of choices), and any failing case shrinks by
// shrinking the tape.

function hash32(str, h = 0x811c9dc5) {
  for (let i = 0; i < str.length; i++) { h ^= str.charCodeAt(i); h = Math.imul(h, 0x01000193); }
  h ^= h >>> 16; h = Math.imul(h, 0x85ebca6b); h ^= h >>> 13; h = Math.imul(h, 0xc2b2ae35); h ^= h >>> 16;
  return h >>> 0;
}
// 52-bit hash used to count distinct cases
function hash52(str) { return hash32(str) * 0x100000 + (hash32(str, 0x1234567) & 0xfffff); }

function sfc32(a, b, c, d) {
  return function () {
    const t = (((a + b) | 0) + d) | 0;
    d = (d + 1) | 0; a = b ^ (b >>> 9); b = (c + (c << 3)) | 0; c = (c << 21) | (c >>> 11); c = (c + t) | 0;
    return t >>> 0;
  };
}

// int(n): 0 <= result < n; 0 is the simplest choice wherever that makes sense.
class Draw {
  constructor(seed, tape) {
    this.tape = tape || null; this.pos = 0; this.rec = [];
    if (!tape) { this.rng = sfc32(hash32(seed), hash32(seed, 1), hash32(seed, 2), 1); for (let i = 0; i < 12; i++) this.rng(); }
  }
  int(n) {
    if (n <= 1) return 0;
    let v;
    if (this.tape) v = this.pos < this.tape.length ? this.tape[this.pos] % n : 0;
    else v = this.rng() % n;
    this.pos++; this.rec.push(v);
    if (this.pos > 200000) throw new Error('tape too long');
    return v;
  }
  range(a, b) { return a + this.int(b - a + 1); }
  // true with probability num/den; false is the simple choice
  chance(num, den = 100) { return this.int(den) >= den - num; }
  pick(a) { return a[this.int(a.length)]; }
  // weighted choice of [weight, value] pairs; the first is the simple one
  weigh(pairs) {
    let t = 0; for (const p of pairs) t += p[0];
    let k = this.int(t);
    for (const p of pairs) { if (k < p[0]) return p[1]; k -= p[0]; }
  }
  shuffle(a) { a = a.slice(); for (let i = a.length - 1; i > 0; i--) { const j = i - this.int(i + 1); [a[i], a[j]] = [a[j], a[i]]; } return a; }
  list(min, max, f) { const n = this.range(min, max), r = []; for (let i = 0; i < n; i++) r.push(f(i)); return r; }
}

// Shrinks a tape while `fails(tape)` holds. fails returns true/false.
function shrinkTape(tape, fails, budget = 1500, until = Infinity) {
  let best = tape.slice(), left = budget;
  const attempt = t => { if (left-- <= 0) return false; if (Date.now() > until) { left = 0; return false; } if (fails(t)) { best = t; return true; } return false; };
  let progress = true;
  while (progress && left > 0) {
    progress = false;
    for (let size = Math.max(1, best.length >> 1); size >= 1 && left > 0; size >>= 1) {
      for (let i = 0; i + size <= best.length && left > 0;) {
        const t = best.slice(0, i).concat(best.slice(i + size));
        if (attempt(t)) progress = true; else i += size;
      }
    }
    for (let i = 0; i < best.length && left > 0; i++) {
      if (best[i] === 0) continue;
      const z = best.slice(); z[i] = 0;
      if (attempt(z)) { progress = true; continue; }
      const h = best.slice(); h[i] = best[i] >> 1;
      if (h[i] !== 0 && attempt(h)) progress = true;
    }
  }
  return best;
}

// Shrinks a text by deleting ever smaller pieces of it while `fails(text)` holds.
function shrinkText(text, fails, budget = 3000, until = Infinity) {
  let best = Array.from(text), left = budget, progress = true;
  while (progress && left > 0) {
    progress = false;
    for (let size = Math.max(1, best.length >> 1); size >= 1 && left > 0; size = size === 1 ? 0 : size >> 1) {
      for (let i = 0; i < best.length && left > 0;) {
        if (Date.now() > until) { left = 0; break; }
        const t = best.slice(0, i).concat(best.slice(i + size));
        left--;
        if (t.length < best.length && fails(t.join(''))) { best = t; progress = true; } else i += size;
      }
    }
  }
  return best.join('');
}
module.exports = { Draw, shrinkTape, shrinkText, hash32, hash52 };
