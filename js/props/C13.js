'use strict';
const { Gen, safe, NONL } = require('../gen.js');
const { mutateTokens } = require('../mutate.js');
const { sameTree, bad, E } = require('../common.js');
const { corpus } = require('../corpus.js');
const { acorn } = require('../ref.js');
const ZS = [0x20, 0xa0, 0x1680, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2009, 0x200a, 0x202f, 0x205f, 0x3000].map(c => String.fromCodePoint(c));
const WS = [' ', '\t', '\v', '\f', '\ufeff', ...ZS];
const LT = ['\n', '\r', '\r\n', '\u2028', '\u2029', '\n\r', '\n\n'];
const isWS = new Set(WS), isLT = new Set(['\n', '\r', '\u2028', '\u2029']);
// Characters that look like spaces or are ignorable, but are not white space in ECMAScript
const NOTWS = ['\u180e', '\u200b', '\u2060', '\u0085', '\u001c', '\u001f', '\u0000', '\u00ad', '\ufffe', '\u061c', '\u200e', '\u2800', '\u001a', '\u007f', '\ufff9', '\u{e0020}', '\u0008', '\u200c', '\u200d'];
const TEXT = ['', '', 'a', '*', '**', '/', '//', '/*', '"', "'", '`', '${', '}', '\\', '\\u', '(', '{', ';', '=', 'if(a){', 'é', '😀', '* /', ' ', '\u00a0', '<!--', '-->', '\ufeff', '@', '#', 'use strict', '\0', '\u0085', '\u200b', '*\\/'];
const words = d => { let s = ''; for (let n = d.int(4); n > 0; n--) s += d.pick(TEXT); return s; };
const inBlock = s => { s = s.replace(/\*\//g, '* /'); while (/\*\//.test(s + '')) s = s.replace('*/', ''); return s; };
// A gap without (nl false) or with (nl true) a line terminator. min: not empty.
function gap(d, nl, min) {
  let s = '', n = d.weigh([[5, 1], [3, 2], [2, 3], [1, 5]]); if (!min && !nl && d.int(4) === 0) return '';
  const at = nl ? d.int(n) : -1;
  for (let i = 0; i < n; i++) {
    if (i === at) { s += d.weigh([[5, d.pick(LT)], [2, '/*' + inBlock(words(d)) + d.pick(LT) + inBlock(words(d)) + '*/'], [2, '//' + words(d) + d.pick(LT)]]); continue; }
    const more = nl ? [[2, d.pick(LT)], [1, '//' + words(d) + d.pick(LT)]] : [];
    s += d.weigh([[6, d.pick(WS)], [2, '/*' + inBlock(words(d)) + '*/'], [1, '/**/'], [1, '/*' + '*'.repeat(d.int(5)) + '*/'], ...more]);
  }
  return s;
}
const html = s => /<!--|-->/.test(s.replace(/\/\*[^]*?\*\//g, ' '));
// Renders L (tokens) with the classes of gaps in K: 0 no line break, 1 line break
function lay(d, L, K) {
  let s = '';
  L.forEach((t, i) => {
    if (i) { let g = gap(d, K[i] === 1, K[i] !== 1 && !safe(L[i - 1], t)); if (g[0] === '/' && s.endsWith('/')) g = ' ' + g; if (/^\*|^\//.test(t) && g.endsWith('/') && !/\*\/$/.test(g)) g += ' '; s += g; }
    s += t;
  });
  return s;
}
const plainLay = (L, K) => L.map((t, i) => (i ? (K[i] ? '\n' : ' ') : '') + t).join('');
const RAW = s => /<!--|-->/.test(s);
// tokens and gaps of a real text; gaps next to template text are left alone
let real = null;
function pieces() {
  if (real) return real;
  real = [];
  const C = corpus();
  for (const s of [...C.stmts, ...C.exprs.map(e => `(${e})`)]) {
    let ts; try { ts = [...acorn.tokenizer(s, { ecmaVersion: 2019 })]; } catch (e) { continue; }
    const r = []; let at = 0;
    for (const t of ts) { if (t.end === t.start && t.start === s.length) break; r.push([s.slice(at, t.start), s.slice(t.start, t.end)]); at = t.end; }
    if (at !== s.length && s.slice(at).trim()) continue;
    let ok = true; try { acorn.parse(s, { ecmaVersion: 2019 }); } catch (e) { ok = false; }
    if (ok && r.length > 2) real.push(r);
  }
  return real;
}
const reLT = /[\n\r\u2028\u2029]/;
module.exports = {
  scale: ['blanks', 'comments'],
  plan(tier) {
    const m = tier === 'thorough' ? 12 : 1;
    const tok = (d, fuel) => { const goal = d.int(4) ? 'script' : 'module', g = new Gen(d, { goal, fuel: 4 + d.int(fuel) }); return { ts: g.program(1, 3), goal }; };
    const flat = ts => { const L = [], no = new Set(); for (const t of ts) { if (typeof t !== 'string' && t.nonl) { no.add(L.length); continue; } L.push(typeof t === 'string' ? t : ';'); } return { L, no }; };
    const sane = L => L.every(t => !/[`\/#@\\]/.test(t) && !/^["']$/.test(t) && !/<!--|-->/.test(t) && !/^(0x|1e)$/.test(t));
    return [
      { name: 'generated programs', cases: 90000 * m, gen(d) { const { ts, goal } = tok(d, 30), { L, no } = flat(ts), q = d.pick([0, 0, 30]), K = L.map((_, i) => !no.has(i) && d.chance(q) ? 1 : 0); const b = gap(d, d.int(2), false) + lay(d, L, K) + gap(d, d.int(2), false) + d.pick(['', '', '//x', '//', '/**/']); return RAW(b) && html(b) ? null : { t: 'same', a: plainLay(L, K), b, goal }; } },
      { name: 'near misses', cases: 60000 * m, gen(d) { const { ts, goal } = tok(d, 20), { L, no } = flat(mutateTokens(d, ts, 2)); if (!sane(L) || !L.length) return null; const q = d.pick([0, 30]), K = L.map((_, i) => !no.has(i) && d.chance(q) ? 1 : 0); const b = lay(d, L, K); return html(b) ? null : { t: 'same', a: plainLay(L, K), b, goal }; } },
      { name: 'real code', cases: 60000 * m, gen(d) {
        const P = pieces(); if (!P.length) return null; const r = d.pick(P); let a = '', b = '';
        r.forEach(([g, t], i) => { a += g + t; const x = g === '' || !d.chance(70) ? g : gap(d, reLT.test(g), true); b += (x[0] === '/' && b.endsWith('/') ? ' ' : '') + x; if (/^[\/*]/.test(t) && b.endsWith('/')) b += ' '; b += t; });
        return html(b) || /\/\/\//.test(b) ? null : { t: 'same', a, b, goal: 'script' };
      } },
      { name: 'line terminator style', cases: 30000 * m, gen(d) {
        let a; if (d.int(2) || !corpus().stmts.length) { const { ts, goal } = tok(d, 25), { L, no } = flat(ts), K = L.map((_, i) => !no.has(i) && d.chance(50) ? 1 : 0); a = plainLay(L, K); if (/\\[\n\r\u2028\u2029]/.test(a)) return null; const nl = d.pick(/`/.test(a) ? ['\r', '\r\n'] : ['\r', '\r\n', '\u2028', '\u2029']); return /\r/.test(a) ? null : { t: 'same', a, b: a.replace(/\n/g, nl), goal }; }
        a = d.list(1, 4, () => d.pick(corpus().stmts)).join('\n'); if (/\\[\n\r]/.test(a) || !/\n/.test(a) || /\r/.test(a)) return null;
        return { t: 'same', a, b: a.replace(/\n/g, d.pick(/`/.test(a) ? ['\r', '\r\n'] : ['\r', '\r\n', '\u2028', '\u2029'])), goal: 'script' };
      } },
      { name: 'unterminated comments', cases: 15000 * m, gen(d) { const { ts, goal } = tok(d, 10), { L } = flat(ts), i = d.int(L.length + 1); const tail = d.pick(['', '*', '/', ' ', '**', '\n', '/*', '//', 'a', '\\', '* /']) + (d.int(2) ? inBlock(words(d)) : ''); if (/\*\//.test(tail)) return null; const head = L.slice(0, i); return { t: 'open', a: head.join(' ') + ' /*' + tail, goal }; } },
      { name: 'characters that are not white space', cases: 15000 * m, gen(d) { const { ts, goal } = tok(d, 10), { L } = flat(ts), i = d.int(L.length + 1), c = d.pick(NOTWS); return { t: 'notws', a: L.join(' '), b: [...L.slice(0, i), c, ...L.slice(i)].join(' '), goal }; } },
      { name: 'every character as a gap, in comments', cases: tier === 'thorough' ? 0x110000 : 0x3100, gen(d, ctx, i) { if (tier !== 'thorough' && i >= 0x3000) i = 0x3000 + d.int(0x110000 - 0x3000); return i >= 0xd800 && i < 0xe000 ? null : { t: 'char', cp: i }; } },
    ];
  },
  check(c, ctx) {
    const g = ctx.g;
    if (c.t === 'char') {
      const ch = String.fromCodePoint(c.cp), lt = isLT.has(ch), ws = isWS.has(ch), h = 'U+' + c.cp.toString(16).padStart(4, '0');
      const p = g.parse(`[${ch}]`, 'script'), q = g.parse(`a/*${ch}*/b`, 'script'), r = g.parse(`//${ch} b`, 'module'), x = bad(p) || bad(q) || bad(r); if (x) return x;
      ctx.kind = true;
      const empty = p.k === 'ok' && p.ast.body.length === 1 && p.ast.body[0].expression.elements.length === 0;
      if (empty !== (lt || ws)) return { sig: 'char:gap', msg: `${h} is ${empty ? '' : 'not '}skipped between tokens` };
      if ((q.k === 'ok') !== lt) return { sig: 'char:block comment', msg: `/*${h}*/ does ${lt ? 'not ' : ''}count as a line break: ${q.k} ${q.disp || ''}` };
      if (r.k !== 'ok' || r.ast.body.length !== (lt ? 1 : 0)) return { sig: 'char:line comment', msg: `${h} does ${lt ? 'not ' : ''}end a line comment` };
      return null;
    }
    if (c.t === 'open') { const q = g.parse(c.a, c.goal), x = bad(q); if (x) return x; ctx.kind = true; return q.k === 'ok' ? { sig: 'open comment accepted', msg: 'a source that ends in an open comment is accepted' } : null; }
    if (c.t === 'notws') {
      const q = g.parse(c.b, c.goal), x = bad(q); if (x) return x; ctx.kind = true;
      return q.k === 'ok' ? { sig: 'not white space', msg: 'a character that is not white space is accepted between tokens' } : null;
    }
    const a = g.parse(c.a, c.goal), b = g.parse(c.b, c.goal), x = bad(a) || bad(b); if (x) return x;
    ctx.kind = c.a !== c.b; ctx.count(a.k === 'ok' ? 'accepted' : 'rejected');
    return sameTree(a, b);
  },
  nontrivial: (c, ctx) => ctx.kind,
  rule: 'Pairs of layouts of one token sequence (generated, mutated or real) that agree on where line breaks are and must get the same verdict and tree; the same text with other line terminators; sources that end inside a comment; foreign characters between tokens; every code point as a gap and inside comments. Non-trivial: the two texts differ.',
  assumptions: ['Comments that look like HTML comments are left out.'],
};
