'use strict';
const { Gen, render } = require('../gen.js');
const { mutateTokens, mutateText, randTok, CHARS } = require('../mutate.js');
const { corpus } = require('../corpus.js');
const { bad } = require('../common.js');

const T = { quick: 1, thorough: 12 };
const NESTS = [ // [open, core, close]
  ['(', 'a', ')'], ['[', '', ']'], ['({a:', '1', '})'], ['{', '', '}'], ['if(a)', ';', ''], ['a(', '', ')'], ['`${', 'a', '}`'],
  ['function f(){', '', '}'], ['(function(){', '', '})'], ['a=>', 'a', ''], ['(a)=>{', '', '}'], ['class A{m(){', '', '}}'], ['[', 'a', ']=b'],
  ['({a:', 'b', '}=c)'], ['!', 'a', ''], ['- ', 'a', ''], ['new ', 'a', ''], ['a?b:', 'c', ''], ['a**', 'b', ''], ['a=', 'b', ''],
  ['for(;;)', ';', ''], ['while(a)', ';', ''], ['do ', ';', ' while(a)'], ['try{', '', '}catch(e){}'], ['switch(a){case 1:', '', '}'], ['with(a)', ';', ''],
  ['a:', ';', ''], ['async()=>', '1', ''], ['async function f(){await ', 'a', '}'], ['function*g(){yield ', 'a', '}'], ['({[', 'a', ']:1})'], ['({get a(){return ', '1', '}})'],
  ['var [', 'a', ']=b;'], ['var {a:', 'b', '}=c;'], ['((a=', 'b', ')=>1)'], ['a[', 'b', ']'], ['f`${', 'a', '}`'], ['class extends ', 'a', '{}'], ['(class extends ', 'a', '{})'], ['[...', 'a', ']'],
  ['(a,', 'b', ')'], ['{a;', '', ';b}'], ['for(a of ', 'b', ');'], ['for(let [', 'a', ']=b;;);'], ['else ', '', ''], ['case ', 'a', ':'], ['(', 'a', ''], ['[', 'a', ''], ['{', 'a', ''], ['`${', 'a', ''], ['/*', '', ''], ['(a=>', '1', ')'],
];
function soup(d) {
  const n = d.range(1, 30); let s = '';
  for (let i = 0; i < n; i++) s += randTok(d) + d.pick(['', ' ', '', ' ', '\n', '/**/']);
  return s;
}
function uni(d) {
  const n = d.range(0, 40); let s = '';
  for (let i = 0; i < n; i++) {
    const k = d.int(6);
    let cp = k === 0 ? d.int(0x80) : k === 1 ? d.int(0x800) : k === 2 ? d.int(0x10000) : k === 3 ? d.int(0x110000) : -1;
    if (cp < 0) s += d.pick(CHARS);
    else { if (cp >= 0xd800 && cp < 0xe000) cp = 0xfffd; s += String.fromCodePoint(cp); }
  }
  return s;
}
const goalOf = d => d.int(3) === 0 ? 'module' : 'script';
function program(d, goal) { const g = new Gen(d, { goal, fuel: 5 + d.int(40) }); return g.program(); }

module.exports = {
  scale: 'all', scaleHow: 'total', scaleK: 3,
  text: 'src',
  plan(tier) {
    const m = T[tier] || 1;
    return [
      { name: 'token soup', cases: 120000 * m, gen: d => ({ src: soup(d), goal: goalOf(d) }) },
      { name: 'random text', cases: 80000 * m, gen: d => ({ src: uni(d), goal: goalOf(d) }) },
      { name: 'mutated tokens', cases: 160000 * m, gen(d) { const goal = goalOf(d), ts = mutateTokens(d, program(d, goal), 4); return { src: render(ts, d.pick(['space', 'tight', 'wild']), d), goal }; } },
      { name: 'mutated characters', cases: 160000 * m, gen(d) { const goal = goalOf(d), s = render(program(d, goal), d.pick(['space', 'tight', 'wild']), d); return { src: mutateText(d, s, 4), goal }; } },
      { name: 'truncated', cases: 80000 * m, gen(d) { const goal = goalOf(d), cs = Array.from(render(program(d, goal), d.pick(['space', 'tight', 'wild']), d)); return { src: cs.slice(0, d.int(cs.length + 1)).join(''), goal }; } },
      { name: 'nesting', cases: 12000 * m, gen(d) {
        const n = d.range(1, 60), mixed = d.int(2), base = d.pick(NESTS); let l = '', r = '', core = base[1];
        for (let i = 0; i < n; i++) { const x = mixed ? d.pick(NESTS) : base; l += x[0]; r = x[2] + r; core = x[1]; }
        let src = l + core + r; if (d.chance(30)) src = mutateText(d, src, 2);
        return { src, goal: goalOf(d) };
      } },
      { name: 'real code', cases: 24000 * m, gen(d) {
        const c = corpus(); if (!c.files.length) return null;
        const f = d.pick(c.files).text, i = d.int(f.length), s = f.slice(i, i + d.range(1, 400)).replace(/[\ud800-\udfff]/g, '');
        return { src: d.int(2) ? mutateText(d, s, 3) : s, goal: goalOf(d) };
      } },
    ];
  },
  check(c, ctx) {
    const q = ctx.g.parse(c.src, c.goal);
    ctx.last = q; ctx.count(q.k === 'ok' ? 'accepted' : q.k === 'err' ? 'rejected' : 'neither');
    const b = bad(q);
    if (b) return { sig: b.sig, msg: `parse_${c.goal} did not return: ${b.msg}` };
    return null;
  },
  // a text the parser got some way into: accepted with content, or rejected after its first token
  nontrivial: (c, ctx) => ctx.last.k === 'ok' ? c.src.trim().length > 0 : ctx.last.k === 'err' && (ctx.last.line > 1 || ctx.last.col > 2),
  rule: 'Token soup, random Unicode, valid programs mutated at token or character level, truncated programs, constructs nested 1-60 deep, windows of real code; each parsed and serialised in a process whose panics, aborts, allocation and CPU use are observed. Non-trivial: accepted with content, or rejected past the second character.',
  assumptions: ['CPU limit 10 s and 256 MB + 64 KB per byte of allocation per parse stand for "finite" and "bounded"; a hang counts only when it repeats.'],
};
