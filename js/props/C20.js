'use strict';
const { Draw } = require('../engine.js');
const { Gen, render } = require('../gen.js');
const { mutateTokens, mutateText } = require('../mutate.js');
const { corpus } = require('../corpus.js');
const modes = ['space', 'tight', 'wild'];
// Texts whose parsing leaves much state behind: contexts open when the error comes, labels, strictness, cover grammar
const LEFT = ['function f(){"use strict";for(;;){l:while(a){', 'class A{m(){with(a)', '"use strict";with(a)b', 'async function f(){await ', 'function*g(){yield ', '({a=1})', '(a,b=1,{c=2})', '(a,{b=1}', '`a${`b${', 'l:l2:for(;;){continue l3', 'a=>{return ', '(a,b)=>{"use strict";', 'x={get a(){', '[a,[b,{c}]]=', 'for(let [a', 'switch(a){case b:default:default:', 'async(a,b', 'async(a)=>{await', 'new new new new', 'return', 'break', 'yield', 'await', 'let', '(((((((((((((((((((((((((((((((', '[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[', '{{{{{{{{{{{{{{{{{{{{{{{{', '/', '"', '`${', '\\u{', '/*', '', ' ', '\n\n\n\n\n@', 'import a from', 'export default', 'var \\u0061b="\\x41', '0x', '1e', 'a=/[/]/g', 'super()', '({__proto__:a,__proto__:b})', 'let\nlet', 'a\n++\nb'];
// The result of a parse as one text; allocation counts left out
const same = (q, text) => q.k === 'ok' ? text.replace(/^\{"k":"ok","n":\d+,"b":\d+/, '') : q.k === 'err' ? `err ${q.line} ${q.col} ${q.type} ${q.disp}` : q.k + (q.msg || '');
const flat = q => q.k === 'ok' ? 'ok ' + q.dbg : q.k === 'err' ? `err ${q.line} ${q.col} ${q.type} ${q.disp}` : q.k;
const cut = s => s.length > 200 ? s.slice(0, 200) + '…' : s;
// code points of all planes, by kind, and others that share some of their bits
const scalar = c => c >= 0 && c < 0xd800 || c > 0xdfff && c < 0x110000 ? String.fromCodePoint(c) : 'u';
const point = d => { switch (d.int(6)) { case 0: return d.pick([0x41, 0xaa, 0xb5, 0x300, 0x2160, 0x20000, 0x1d49c, 0x10000, 0xfb00, 0x37a, 0x2118, 0x309b, 0x200c, 0x200d, 0xa0, 0xfeff, 0x2028, 0x1680, 0x180e, 0x1f600]) + d.int(3); case 1: return 0x80 + d.int(0x780); case 2: return 0x3000 + d.int(0xa000); case 3: return 0x20000 + d.int(0xa000); case 4: return 0x10000 + d.int(0x10000); default: return d.int(0x110000); } };
const like = (d, c) => { switch (d.int(6)) { case 0: return c & 0xffff; case 1: return (c & 0xffff) + (1 + d.int(16)) * 0x10000; case 2: return c & 0xff; case 3: return (c & 0xff) | d.int(0x200) << 8; case 4: return c ^ 1 << d.int(20); default: return c + d.pick([1, -1, 0x100, 0x1000, 32, -32]); } };
const HOLES = ['var @', '@', 'x@', '@x=1', '"@"', '`@`', '/@/', '/*@*/a', 'a@b', 'x.@', '({@:1})', '//@\nb', '@:for(;;)break @', 'x.a@=@', '"use strict";@@', 'class @{}', '@=>@', '\\u{#}', 'a\\u{#}', '"\\u{#}"'];
const points = (d, c) => ({ src: d.pick(HOLES).replace(/@/g, () => scalar(c)).replace(/#/g, c.toString(16)), goal: d.int(4) ? 'script' : 'module', c });
const text = d => {
  if (d.chance(12)) return points(d, point(d));
  if (d.chance(25)) return { src: d.pick(LEFT), goal: d.int(3) ? 'script' : 'module' };
  const C = corpus().stmts;
  if (d.chance(10) && C.length) return { src: d.pick(C).replace(/[\ud800-\udfff]/g, 'u'), goal: 'script' };
  const goal = d.int(3) ? 'script' : 'module', g = new Gen(d, { goal, fuel: 3 + d.int(20) }), ts = g.program(1, 2);
  const src = d.chance(35) ? render(mutateTokens(d, ts, 2), d.pick(modes), d) : render(ts, d.pick(modes), d);
  if (d.chance(15)) { const cs = Array.from(src); return { src: cs.slice(0, d.int(cs.length + 1)).join(''), goal }; }
  return { src: d.chance(10) ? mutateText(d, src, 1) : src, goal: d.int(8) ? goal : goal === 'script' ? 'module' : 'script' };
};
// relatives of a text: what a cache with a careless key would mix up
const kin = (d, t) => { if (t.c !== undefined && d.int(4)) return points(d, Math.max(0, Math.min(0x10ffff, like(d, t.c)))); switch (d.int(7)) { case 0: return { src: t.src, goal: t.goal === 'script' ? 'module' : 'script' }; case 1: return { src: t.src + d.pick([' ', '\n', ';', ')', '//']), goal: t.goal }; case 2: return { src: d.pick([' ', '\n', '{', '"use strict";']) + t.src, goal: t.goal }; case 3: return { src: t.src.replace(/[a-z]/g, c => c === 'a' ? 'b' : c), goal: t.goal }; case 4: return { src: t.src.replace(/\d/, x => (+x + 1) % 10), goal: t.goal }; case 5: return { src: t.src.slice(0, t.src.length >> 1).replace(/[\ud800-\udbff]$/, ''), goal: t.goal }; default: return { src: mutateText(d, t.src, 1), goal: t.goal }; } };
// By context: texts that leave it open when their error comes (or close it), and texts whose verdict depends on it
const CTX = [
  { open: ['switch(a){', 'switch(a){case b:', 'switch(a){default:c', 'switch(a){case b:switch(c){', 'switch(a'], done: ['switch(a){}', 'switch(a){case b:c}', 'switch(a){default:}', 'switch(a){case b:switch(c){}}'], probe: ['break', 'if(a)break', '{break}'] },
  { open: ['for(;;){', 'while(a)', 'do{', 'for(;;)b c', 'for(a in b){', 'for(a of b)(', 'while(a){for(;;)', 'for(;'], done: ['for(;;);', 'while(a){}', 'do;while(a);', 'for(a in b);', 'for(a of b){}', 'for(;;)for(;;);'], probe: ['break', 'continue', '{continue}', 'if(a)break'] },
  { open: ['function f(){', '(function(){', 'x={m(){', 'class A{m(){', '(a)=>{', 'a=>{', 'x={get a(){', 'function f(a=', 'async()=>{', 'function f(){function g(){'], done: ['function f(){}', 'x=function(){};', 'x={m(){}};', 'class A{m(){}}', 'x=a=>{};', 'x={get a(){return}};', 'x=async()=>{};', 'function f(){return}'], probe: ['return', 'return a', '{return}', 'new.target', 'if(a)return;'] },
  { open: ['function*f(){', 'x={*m(){', 'function*f(){yield ', 'class A{*m(){yield', 'async function*f(){', 'x=function*(){(yield', 'function*f(a='], done: ['function*f(){}', 'x={*m(){yield}};', 'function*f(){yield a}', 'class A{*m(){}}'], probe: ['yield a', 'yield', 'var yield', 'yield*a', 'yield=1', 'x=yield', 'yield:;', '(yield)=>a'] },
  { open: ['async function f(){', 'async()=>{', 'async()=>await ', 'x={async m(){', 'async function f(){await', 'async a=>', 'async(a', 'async function f(a='], done: ['async function f(){}', 'x=async()=>{};', 'x=async a=>await a;', 'x={async m(){await a}};', 'async(a);', 'async function f(){await a}'], probe: ['await a', 'await', 'var await', 'await=1', 'await:;', 'for await(a of b);', '(await)=>a', 'await(a)'] },
  { open: ['"use strict";', '"use strict";(', 'function f(){"use strict";', 'class A{', 'class A{m(){', 'class extends ', '(a)=>{"use strict"', 'class A extends (', 'x={m(){"use strict"'], done: ['function f(){"use strict"}', 'class A{}', 'class A extends B{m(){}}', 'x=()=>{"use strict"};', 'x=class{};', 'x={m(){"use strict"}};', '"a";"b";'], probe: ['with(a)b', 'public=1', 'var static', 'let=1', 'var eval', 'yield=1', 'x={private}', 'interface=>1', 'function f(package){}'] },
  { open: ['l:', 'l:{', 'l:for(;;){', 'l:m:', 'l:{function f(){', 'l:while(a){break l;(', 'l:;(', 'm:l:for(;;){('], done: ['l:;', 'l:{}', 'l:for(;;);', 'l:m:;', 'l:for(;;)break l;', 'l:{break l}'], probe: ['break l', 'for(;;)break l', 'for(;;)continue l', 'l:;', 'l:for(;;)continue l', 'for(;;)break m'] },
  { open: ['({a=1}', '({a=1})', '[{a=1}', '(a,{b=2}', 'f({a=1}', '({a=1},', 'x={a=1', 'async({a=1}', '({a:{b=1}}'], done: ['({a=1})=>a;', '({a=1}=b);', 'x=[{a=1}]=b;', 'for({a=1}of b);', 'async({a=1})=>a;'], probe: ['({a=1})', 'x={a=1}', '({a})', 'f({a=1})', '({a=1}=b)', '({a=1})=>b', '[{a=1}]', '({a:b})', 'async({a=1})'] },
  { open: ['for(var a=', 'for(a=b', 'for(let[a', 'for(var a=(', 'for(a?', 'for(x=>', 'for(var a=function(){', 'for(`${'], done: ['for(var a=b;;);', 'for(a=b;;);', 'for(a of b);', 'for(var a in b);', 'for(var a=(b in c);;);'], probe: ['a in b', 'x=a in b', 'for(a in b);', 'for(var x=a in b;;);', 'for(x=a in b;;);', 'if(a in b);', 'for(;a in b;);', '`${a in b}`'] },
  { open: ['`a${', '`a${b', '`${`${', '`${{', '`a', '`${a}', '`${a}${', '`${function(){'], done: ['`a${b}c`;', '`${`${a}`}`;', '`${{}}`;', '`a`;', 'a`${b}`;'], probe: ['}', '}a`', '{}', '{a}', '{}/a/g', '`}`', '`${a}`', 'x={}/a', '{}`'] },
  { open: ['/a', '/[', 'a=/', 'a/', '(a)/', '/(?<n>', '/\\k<n>', '/[b-a]/', '/a/gg'], done: ['/a/;', '/(?<n>a)/;', '/(a)\\1/;', 'a/b;', '/[/]/g;'], probe: ['/a/', 'a/b/c', '/\\k<n>/', '/\\1/', '/(?<n>a)/', 'a/1', '{}/a/', '/\\k/', '(a)/b/c', '/\\2/u'] },
  { open: ['(a,b', '(a,...b', '(a', '((a', '(a,b)', 'async(a,b', '(a)=>', '[a,...b', '(a,)', '(...a', '(a,b)\n=>', '({a}', '()'], done: ['(a,b)=>c;', '(a);', '(a,b);', '(a,...b)=>c;', '()=>{};', '[a,...b]=c;', '(a,)=>b;'], probe: ['(a,b)', '(a,...b)', '()', '(a,)', '=>a', '(a)=>b', '(a,...b)=>c', '(1)=>a', '(a,b)=>c', '((a))=>b', '(a.b)=>c'] },
  { open: ['x={__proto__:a,', 'x={__proto__:a,__proto__:b', '({__proto__:a,__proto__:b})', 'class A{constructor(){}', 'class A{constructor(){}constructor', 'class A extends B{constructor(){super(', 'class A{m(){super.'], done: ['x={__proto__:a};', 'class A{constructor(){}}', '({__proto__:a,__proto__:b}=c);', 'class A extends B{constructor(){super()}}', 'x={m(){super.a}};'], probe: ['x={__proto__:a}', 'class A{constructor(){}}', 'super()', 'super.a', 'x={m(){super()}}', 'class A{constructor(){super()}}', 'x={__proto__:a,__proto__:b}', 'x={m(){super.a}}'] },
  { open: ['var a;let a', 'let a;let a', '"\\01"', '"\\01";"use strict"', '"use strict";"\\01"', '010', '"use strict";010', 'a\n++', 'return\n'], done: ['"\\01";', '010;', 'x="\\7";', 'a\n++\nb;'], probe: ['"\\01"', '010', '"use strict";010', '"use strict";"\\01"', 'a\n++b', '"a";"use strict";with(b)c', '`\\01`', 'x=08.5'] },
];
const inside = d => d.weigh([[6, x => x], [1, x => `{${x}}`], [1, x => `function q(){${x}}`], [1, x => `for(;;){${x}}`], [1, x => `x=()=>{${x}}`], [1, x => `"use strict";${x}`]]);
const mate = (d, k, side) => { const c = CTX[k]; return { src: side ? (d.chance(65) ? d.pick(c.done) + d.pick(['', '\n', ';']) : '') + inside(d)(d.pick(c.probe)) : (d.chance(20) ? d.pick(c.done) : '') + (d.int(4) ? d.pick(c.open) : inside(d)(d.pick(c.open)).replace(/[)}]+$/, '')), goal: d.int(6) ? 'script' : 'module', mate: k }; };
const texts = (d, n) => { if (n >= 2 && d.chance(40)) { const k = d.int(CTX.length), L = d.list(n, n, i => i < 2 || d.int(2) ? mate(d, d.int(8) ? k : d.int(CTX.length), i && d.int(5)) : text(d)); return L; } const L = [text(d)]; while (L.length < n) L.push(d.chance(40) ? kin(d, d.pick(L)) : text(d)); return L; };
// One text out of n pieces, all different in the given way: wears out what a process might keep
const WEAR = {
  names: i => `w${i.toString(36)}_;`, keys: i => `({k${i.toString(36)}_:1});`, members: i => `a.m${i.toString(36)}_;`, strings: i => `"s${i}";`, 'single quoted': i => `'t${i}';`, numbers: i => `${i}.5;`, regexes: i => `/r${i}/;`, templates: i => `\`q${i}\`;`, labels: i => `l${i.toString(36)}_:;`, variables: i => `var v${i.toString(36)}_;`, functions: i => `function f${i.toString(36)}_(){}`, escapes: i => `"\\u{${((i * 7919) % 0xd000).toString(16)}}";`, 'escaped names': i => `\\u0061${i.toString(36)}_;`, hex: i => `0x${i.toString(16)};`, letters: i => `${String.fromCodePoint(0x4e00 + i % 0x5000)}${String.fromCodePoint(0x4e00 + Math.floor(i / 0x5000))}_;`, points: i => `${String.fromCodePoint(0x20000 + i % 0xa000)}${String.fromCodePoint(0x4e00 + Math.floor(i / 0xa000))}_;`, comments: i => `/*${i}*/;`, 'long names': i => `w${i.toString(36)}${'_long'.repeat(8)};`,
};
const KINDS = Object.keys(WEAR);
const worn = (kind, from, n) => { const r = []; for (let i = from; i < from + n; i++) r.push(WEAR[kind](i)); return r.join('\n'); };
module.exports = {
  plan(tier) {
    const m = tier === 'thorough' ? 12 : 1;
    return [
      { name: 'histories', cases: 9000 * m, gen(d) { const L = texts(d, d.range(2, 5)); return { L, ops: d.list(3, 25, () => [d.int(L.length), d.weigh([[20, 1], [3, 5], [2, 60]])]), probe: d.int(L.length) }; } },
      { name: 'long histories of one failure', cases: 200 * m, gen(d) { const L = texts(d, d.range(2, 3)), k = d.pick([300, 1200, 3000]); if (L[0].mate === undefined) L[0] = { src: d.pick(LEFT), goal: 'script' }; return { L, ops: [[0, k], ...d.list(0, 2, () => [d.int(L.length), 20])], probe: 1 }; } },
      { name: 'thousands of different texts', cases: 48 * m, gen(d) { return { many: 'many' + d.int(1 << 30), k: 100 * d.range(1, 40), L: texts(d, 8) }; } },
      { name: 'after a process has seen very many words', cases: (KINDS.length * 2 + 14) * m, gen(d, ctx, i) { const sizes = [70000, 140000], k = KINDS.length; return { kind: i < 2 * k ? KINDS[i % k] : d.pick(KINDS), n: i < k ? 70000 : d.pick([300, 4200, 33000, 66000, 70000, 140000]), by: i < k ? 140000 : d.pick([1, 3, 100, 5000, 140000]), L: texts(d, 8) }; } },
      { name: 'threads', cases: 6000 * m, gen(d) { const L = texts(d, d.range(2, 8)); return { L, rounds: d.pick([1, 5, 40]) }; } },
      { name: 'the same process over many parses', cases: 60000 * m, gen(d) { const L = texts(d, 2); return { L, pair: true }; } },
    ];
  },
  check(c, ctx) {
    const { Giron } = require('../giron.js');
    const one = (g, t) => { const q = g.parse(t.src, t.goal, { dbg: true }); return { q, s: same(q, g.text) }; };
    ctx.kind = true;
    if (c.pair) { // A, B, A again
      const [A, B] = c.L, a = one(ctx.g, A), b = one(ctx.g, B), a2 = one(ctx.g, A), b2 = one(ctx.g, B);
      // the same texts in the other order in another process
      const R = ctx.reverse || (ctx.reverse = new Giron()), rb = one(R, B), ra = one(R, A);
      if (ra.s !== a.s || rb.s !== b.s) { const [x, y] = ra.s !== a.s ? [ra.s, a.s] : [rb.s, b.s]; return { sig: 'order', msg: `in one process ${cut(y)}, in another where it came in another order ${cut(x)}` }; }
      if (a.s !== a2.s || b.s !== b2.s) { const [x, y] = a.s !== a2.s ? [a.s, a2.s] : [b.s, b2.s]; return { sig: 'again', msg: `parsed again after another text: ${cut(y)}, before: ${cut(x)}` }; }
      ctx.count(a.q.k + ' ' + b.q.k); return null;
    }
    const H = ctx.hist || (ctx.hist = new Giron()), F = ctx.fresh || (ctx.fresh = new Giron());
    H.fresh();
    if (c.rounds) {
      // threads of a process that has parsed nothing else, against single parses in another process
      const r = H.together(c.L, c.rounds);
      if (r.k !== 'thr') return { sig: 'threads:' + r.k, msg: r.k };
      if (r.all.some(x => x === 'panic' || x === 'join')) return { sig: 'threads:panic', msg: 'a thread panicked' };
      for (let i = 0; i < c.L.length; i++) { const w = flat(F.parse(c.L[i].src, c.L[i].goal, { dbg: true })); if (r.all[i] !== w) return { sig: 'threads', msg: `in thread ${i}: ${cut(r.all[i])}, alone: ${cut(w)}` }; }
      ctx.count(c.L.length + ' threads'); return null;
    }
    if (c.many) {
      for (let i = 0; i < c.k; i++) { const t = text(new Draw(c.many + i)); H.parse(t.src, t.goal, { noast: true }); }
      F.fresh();
      for (const t of c.L) { const a = one(H, t), b = one(F, t); if (a.s !== b.s) return { sig: 'many', msg: `after ${c.k} other texts: ${cut(a.s)}, in a new process: ${cut(b.s)}` }; }
      return null;
    }
    if (c.kind) {
      const step = c.n / c.by > 30000 ? Math.ceil(c.n / 30000) : c.by;
      for (let i = 0; i < c.n; i += step) H.parse(worn(c.kind, i, Math.min(step, c.n - i)), 'script', { noast: true });
      F.fresh(); ctx.count('worn by ' + c.kind);
      // words the process has seen, near the start, the middle and the end, in one text and in another order; and others
      const ws = [0, 1, 2, 255, 256, 257, 65535, 65536, 65537, c.n >> 1, c.n - 2, c.n - 1, c.n, c.n + 1].filter(i => i <= c.n + 1).map(i => WEAR[c.kind](i));
      for (const t of [...c.L, { src: ws.join('\n'), goal: 'script' }, { src: ws.reverse().join('\n'), goal: 'script' }, { src: 'newcomer.other={third:a,"fourth":`fifth${sixth}`};', goal: 'script' }]) { const a = one(H, t), b = one(F, t); if (a.s !== b.s) return { sig: 'worn', msg: `after ${c.n} ${c.kind}: ${cut(a.s)}, in a new process: ${cut(b.s)}` }; }
      return null;
    }
    const first = [];
    for (const [i, k] of c.ops) for (let j = 0; j < k; j++) {
      const r = one(H, c.L[i]);
      if (first[i] === undefined) first[i] = r.s; else if (r.s !== first[i]) return { sig: 'history', msg: `parse of text ${i} gave ${cut(r.s)}, before ${cut(first[i])}` };
    }
    const last = one(H, c.L[c.probe]); F.fresh(); const w = one(F, c.L[c.probe]);
    ctx.count(w.q.k);
    if (last.s !== w.s) return { sig: 'fresh', msg: `after the history: ${cut(last.s)}, in a new process: ${cut(w.s)}` };
    return null;
  },
  nontrivial: (c, ctx) => ctx.kind,
  rule: 'Histories of parses (valid, failing and cut texts, near relatives of each other, texts that leave a context open next to texts whose verdict depends on that context, under both goals, some repeated thousands of times) in one process, whose every answer must repeat and whose last must equal that of a new process; sets of texts parsed at the same time by up to 8 threads against each parsed alone; processes that have seen up to 140000 different names, strings, numbers and so on, in few or many texts, against new ones; and pairs parsed alternately in one process that is never restarted. Answers are compared as the full JSON, the {:?} text with spans, or the error with its place. Non-trivial: all.',
};
