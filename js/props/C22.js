'use strict';
const { Gen, render } = require('../gen.js');
const { mutateText } = require('../mutate.js');
const { corpus } = require('../corpus.js');
const { ST, EX } = require('./C21.js');
const modes = ['space', 'tight', 'wild'];
// Places where a piece may be repeated side by side: [before, separator, after, kind of piece]
const ROWS = [['', '\n;', '', 's'], ['{', '\n', '}', 'b'], ['function f(){', '\n;', '}', 's'], ['class A{m(){', '\n;', '}}', 's'], ['switch(z){case y:', '\n;', '}', 's'], ['x=()=>{', '\n;', '}', 's'],
  ['[', '\n,', ']', 'e'], ['f(', '\n,', ')', 'e'], ['x=[', '\n,', ']=y', 't'], ['(', '\n,', ')', 'e'], ['', '\n+', '', 'p'], ['', '\n&&', '', 'p'], ['x=', '\n,', '', 'e'], ['`', '', '`', 'q'], ['f`', '', '`', 'q'], ['switch(z){', '', '}', 'c'], ['({', '\n,', '})', 'o'], ['x={', '\n,', '}', 'o'], ['class A{', '', '}', 'm'], ['x=class extends B{', ';', '}', 'm'], ['var ', ',', '', 'v'], ['let ', ',', '', 'v'],
  ['function f(', ',', '){}', 'd'], ['(', ',', ')=>x', 'd'], ['async(', ',', ')=>x', 'd'], ['({', ',', '}=x)', 'P'], ['var {', ',', '}=x', 'P'], ['var [', ',', ']=x', 'd'], ['([', ',', '])=>x', 'd'], ['({', ',', '})=>x', 'P'], ['for([', ',', '] of x);', 'd'], ['', '', '', 'l'], ['"', '', '"', 'S'], ["x='", '', "'", 'S'], ['`', '', '`', 'T'], ['/*', '', '*/', 'C'], ['', '', '', 'w'], ['//', '', '', 'C'], ['/a', '', '/', 'R'], ['x', '', '', 'i'], ['x.y', '', '', 'M'], ['new x', '', '', 'M'], ['', '', '', 'D'], ['1', '', '', 'n'], ['0x1', '', '', 'h'], ['.', '', '', 'n'], ['x', '', '', 'A']];
const DIRECTIVES = ['"use strict";', '"a";', "'b'\n", '"c";//d\n'];
const ATOMS = { S: ['a', '\\n', '\\x41', '\\u{41}', '\\u0041', 'é', '😀', '\\\n', '\\\r\n', '\\0', ' '], T: ['a', '\n', '\r\n', '$', '\\`', '\\u{1f600}', 'é', '}', '{'], C: ['a', '*', '/ ', ' ', 'é', '"', '😀'], w: [' ', '\n', '\t', '\r\n', '\u2028', '//a\n', '/*a*/', '/*\n*/', ';', '\ufeff', '/***/'], R: ['a', '[/]', '\\/', '(b)', 'é', '[^\\]]', '\\u0041'], i: ['a', '$', '_', 'é', '1', '\\u0061', '\\u{62}', '𠮷'], M: ['.a', '[a]', '()', '.if', '(a,b)', '`c`', '["d"]', '`${e}`'], D: DIRECTIVES, n: ['0', '1', '9'], h: ['0', 'f', 'A'], A: ['=a', '+=b', ',c', '||d', '*e', ' in f', '<g', '**h', '=[i]', '?j:k', '-l'], q: ['${a}', 'b${c}', '${`d${e}`}', '${{}}', '$', '${f,g}'], c: ['case a:', 'case b:c;', 'case d:{}break;', 'case e:if(f)g\n', 'case {}:'], o: ['a', 'b:c', '[d]:e', 'f(){}', 'get g(){}', '"h":1', '2:i', '...j', 'async*k(){}', 'l:{m}', 'set n(o){}'], m: ['a(){}', 'static b(){}', 'get c(){}', '[d](){}', '*e(){}', 'async f(){}', '"g"(){}', ';', 'set h(i){}', 'j(){super.k}'], v: ['a', 'b=1', '{c}=d', '[e]=f', 'g=h=>i'], d: ['a', 'b=1', '{c}', '[d,[e]]', '{f:g=1}', '{h,...i}', '[j=k]'], P: ['a', 'b:c', 'd=1', 'e:{f}', '[g]:h', 'i:[j,k]', '"l":m=n', '2:o'], t: ['a', 'b.c', '[d]', '{e}', 'f=1', '{g:h.i}', 'j[k]'], l: ['if(a);else ', 'l:', 'while(b)', 'for(;;)', 'with(c)', 'do;while(d)', 'for(e of f)', 'l2:', '{}'] };
const NEST = ['l', 'A']; // these atoms nest: n is kept small
const NESTS = [['(', 'a', ')'], ['[', '', ']'], ['({a:', '1', '})'], ['{', '', '}'], ['f(', '', ')'], ['a[', '0', ']'], ['`${', 'a', '}`'], ['(a=', 'b', ')=>c'], ['([', 'a', '])=>b'], ['({a:', 'b', '})=>c'], ['async(a=', 'b', ')=>c'], ['[', 'a', ']=b'], ['({a:', 'b', '}=c)'], ['a=>', 'b', ''], ['a?', 'b', ':c'], ['a=', 'b', ''], ['-', 'a', ''], ['new ', 'A', ''], ['new (', 'A', ')'], ['a**', 'b', ''], ['x={m(){', '', '}}'], ['(function(){', '', '})'], ['if(a)', ';', ''], ['if(a);else ', ';', ''], ['l:', ';', ''], ['while(a)', ';', ''], ['try{', '', '}catch(e){}'], ['switch(a){case b:', '', '}'], ['(()=>{', '', '})()'], ['await_(', 'a', ')'], ['async x=>', 'a', ''], ['(', 'a', ',b)'], ['(', 'a', ',b)=>c'], ['[...', 'a', ']'], ['({...', 'a', '})'], ['[a=', 'b', ']'], ['({a=', 'b', '}=c)'], ['({a=', 'b', '})=>c'], ['f(...', 'a', ')'], ['var [', 'a', ']=b'], ['var {a:', 'b', '}=c'], ['function f(a=', 'b', '){}'], ['class A extends ', 'B', '{}'], ['(class{[', 'a', '](){}})'], ['typeof ', 'a', ''], ['a,(', 'b', ')'], ['((', 'a', '))'], ['(a)(', '', ')'], ['(b,', 'a', ')'], ['[[', 'a', ']]'], ['({a:[', 'b', ']})'], ['([{a:', 'b', '}])=>c']];
module.exports = {
  ROWS,
  plan(tier) {
    const m = tier === 'thorough' ? 14 : 1;
    const expr = d => { const C = corpus().exprs; if (C.length && d.chance(20)) return d.pick(C).replace(/[\ud800-\udfff]/g, 'u'); const g = new Gen(d, { goal: 'script', fuel: 2 + d.int(10) }); g.assign(); return render(g.out, d.pick(modes), d); };
    const stmts = d => { const C = corpus().stmts; if (C.length && d.chance(20)) return d.pick(C).replace(/[\ud800-\udfff]/g, 'u'); const g = new Gen(d, { goal: 'script', fuel: 2 + d.int(12) }); return render(g.program(1, 2), d.pick(modes), d); };
    const row = (d, r) => {
      const k = r[3], one = () => k === 's' ? stmts(d) : k === 'b' ? '{' + stmts(d) + '\n}' : k === 'e' ? expr(d) : k === 'p' ? '(' + expr(d) + '\n)' : d.pick(ATOMS[k]);
      let f = d.list(1, k === 's' || k === 'e' || k === 'p' || k === 'b' ? 2 : 5, one).join(r[1]);
      const edited = d.chance(8); if (edited) f = mutateText(d, f, 1);
      return { t: 'row', a: r[0], f: f + r[1], z: (k === 'e' || k === 'p' || /^[,+&\n]+$/.test(r[1]) ? (k === 'o' || k === 'P' ? 'z' : 'z') : '') + r[2], n: NEST.includes(k) ? 10 : Math.max(20, Math.min(600, Math.round(3000 / (f.length + 1)))), edited, goal: 'script' };
    };
    return [
      { name: 'side by side', cases: 14000 * m, gen: d => row(d, d.pick(ROWS)) },
      { name: 'nested', cases: 40000 * m, gen(d) { const L = d.list(1, 3, () => d.int(4) ? d.pick(NESTS) : d.int(2) ? d.pick(ST)[0].split('¦') : d.pick(EX)[0].split('¦')); return { t: 'nest', a: L.map(x => x[0]), z: L.map(x => x.length > 2 ? x[2] : x[1]), mid: L[L.length - 1].length > 2 ? L[L.length - 1][1] : '', cut: d.chance(15), goal: 'script' }; } },
      { name: 'each context nested in itself', cases: NESTS.length + ST.length + EX.length, gen(d, ctx, i) { const L = i < NESTS.length ? NESTS[i] : i < NESTS.length + ST.length ? ST[i - NESTS.length][0].split('¦') : EX[i - NESTS.length - ST.length][0].split('¦'); return { t: 'nest', a: [L[0]], z: [L.length > 2 ? L[2] : L[1]], mid: L.length > 2 ? L[1] : i < NESTS.length + ST.length ? '' : 'a', cut: false, goal: 'script' }; } },
      { name: 'large', cases: 500 * m, gen: d => { const c = row(d, d.pick(ROWS.filter(r => !NEST.includes(r[3])))); c.n *= 8; return c; } },
    ];
  },
  check(c, ctx) {
    const g = ctx.g; ctx.kind = false;
    const at = n => { let s; if (c.t === 'row') s = c.a + c.f.repeat(n) + c.z; else { let a = '', z = ''; for (let i = 0; i < n; i++) { const k = i % c.a.length; a += c.a[k]; z = c.z[k] + z; } s = a + c.mid + (c.cut ? '' : z); } return g.parse(s, c.goal, { noast: true }); };
    const wrong = (q, n) => q.k === 'ok' || q.k === 'err' ? null : { sig: q.k, msg: `with ${n} repetitions: ${q.k} ${q.msg || ''}` };
    if (c.t === 'nest') {
      const n = 14, q = at(n), r = at(2 * n), x = wrong(q, n) || wrong(r, 2 * n); if (x) return x;
      ctx.kind = r.k === 'ok'; ctx.count('nested ' + r.k);
      if (q.k !== r.k || r.k === 'err') { const len = 1 + c.mid.length + 2 * n * Math.max(...c.a.map((x, i) => x.length + c.z[i].length)); return r.n > 5 * len + 200 || r.b > 5000 * len + 50000 ? { sig: 'nested, rejected', msg: `${r.n} allocations, ${r.b} bytes for ${len} characters` } : null; }
      if (r.n > 3 * q.n + 200) return { sig: 'nested allocations', msg: `${n} levels: ${q.n} allocations, ${2 * n} levels: ${r.n}` };
      if (r.b > 3.5 * q.b + 20000) return { sig: 'nested bytes', msg: `${n} levels: ${q.b} bytes, ${2 * n} levels: ${r.b}` };
      if (r.us > 30000 && r.us > 50 * q.us) { const a = at(n), b = at(2 * n); if (b.us > 30000 && b.us > 50 * a.us) return { sig: 'nested time', msg: `${n} levels: ${a.us} µs, ${2 * n} levels: ${b.us} µs` }; }
      return null;
    }
    const n = c.n, q = at(n), r = at(4 * n), x = wrong(q, n) || wrong(r, 4 * n); if (x) { if (c.edited && x.sig === 'crash') { ctx.count('an edit made it nest too deeply'); return null; } return x; }
    ctx.kind = r.k === 'ok'; ctx.count('side by side ' + r.k);
    if (r.n > 4.4 * q.n + 100) return { sig: 'allocations', msg: `${n} times: ${q.n} allocations, ${4 * n} times: ${r.n}` };
    if (r.b > 8.4 * q.b + 20000) return { sig: 'bytes', msg: `${n} times: ${q.b} bytes, ${4 * n} times: ${r.b}` };
    if (r.us > 9 * q.us && r.us > 15000) { // look closer
      const best = k => { let b = Infinity; for (let i = 0; i < 4; i++) { const y = at(k); if (y.us === undefined) return NaN; b = Math.min(b, y.us); } return b; };
      const t1 = best(n), t4 = best(4 * n), t16 = best(16 * n);
      if (t4 > 9 * t1 && !(t16 <= 9 * t4)) return { sig: 'time', msg: `${n} times: ${t1} µs, ${4 * n} times: ${t4} µs, ${16 * n} times: ${t16} µs` };
      ctx.count('time measured again');
    }
    return null;
  },
  nontrivial: (c, ctx) => ctx.kind,
  rule: 'Generated, real and hand-picked fragments repeated n and 4n times side by side in ' + ROWS.length + ' kinds of place (statements, lists, chains, members, characters of a token, comments, ...), and up to three contexts nested 14 and 28 times. The number and the bytes of the allocations (counted by the harness\'s allocator) must grow in proportion, and so must the CPU time where it is long enough to tell. Non-trivial: accepted at the larger size.',
};
