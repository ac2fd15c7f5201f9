'use strict';
const { Gen, render } = require('../gen.js');
const { mutateTokens, mutateText, randTok, PUNCT, WORDS } = require('../mutate.js');
const { differential } = require('../common.js');
const { corpus } = require('../corpus.js');
const { acorn } = require('../ref.js');
const forms = require('../forms.js');
const ingrid = require('../ingrid.js');
const ctxgrid = require('../ctxgrid.js');
const modes = ['space', 'space', 'tight', 'wild'];
// Alphabet of the exhaustive part: one or more tokens for every role in the grammar
const A = ['a', '1', '"s"', '/r/', '`t`', '`${', '}`', '(', ')', '[', ']', '{', '}', '.', '...', ';', ',', '=', '+=', '=>', '?', ':', '*', '+', '-', '!', '++', '**', '&&', '<', '\n', 'async', 'await', 'yield', 'let', 'of', 'get', 'static', 'break', 'case', 'catch', 'class', 'const', 'continue', 'debugger', 'default', 'delete', 'do', 'else', 'enum', 'export', 'extends', 'false', 'finally', 'for', 'function', 'if', 'import', 'in', 'instanceof', 'new', 'null', 'return', 'super', 'switch', 'this', 'throw', 'try', 'typeof', 'var', 'while', 'with', 'b', 'from', 'as', '@', '#', '\\'];
const SMALL = ['a', '1', '(', ')', '[', ']', '{', '}', '.', '...', ';', ',', '=', '=>', ':', '*', '++', '\n', 'async', 'let', 'class', 'for', 'function', 'if', 'in', 'of', 'new', 'var', 'do', 'while', 'else', 'return', 'yield', 'await', 'get'];
const WRAP = [x => x, x => x, x => x, x => `{${x}}`, x => `function f(){${x}}`, x => `function*f(){${x}}`, x => `async function f(){${x}}`, x => `for(;;){${x}}`, x => `(${x})`, x => `x=[${x}]`, x => `x={${x}}`, x => `class A{${x}}`, x => `f(${x})`, x => `()=>{${x}}`, x => `\`\${${x}}\``, x => `switch(a){${x}}`, x => `var{${x}}=a`, x => `var ${x}`, x => `(${x})=>1`, x => `function f(${x}){}`, x => `if(a)${x}`, x => `for(${x})a`, x => `x=${x}`, x => `x?${x}:y`, x => `x.${x}`, x => `new ${x}`, x => `try{${x}}catch(e){}`, x => `l:${x}`, x => `import ${x}`, x => `export ${x}`, x => `export{${x}}`, x => `({m(${x}){}})`, x => `class A extends ${x}{}`, x => `do ${x} while(a)`, x => `[${x}]=a`, x => `({${x}}=a)`];
let toks = null;
function real() { // token lists of real statements
  if (toks) return toks; toks = [];
  const C = corpus();
  for (const s of [...C.stmts, ...C.exprs.map(e => `(${e})`)]) { if (s.length > 250) continue; try { toks.push([...acorn.tokenizer(s, { ecmaVersion: 2019 })].filter(t => t.end > t.start || t.type.label === 'template').map(t => s.slice(t.start, t.end)).filter(x => x)); } catch (e) { } }
  return toks = toks.filter(t => !t.some(x => x[0] === '`'));
}
module.exports = {
  scale: 'all', scaleHow: 'reject', scaleK: 2,
  text: 'src',
  plan(tier) {
    const th = tier === 'thorough', m = th ? 12 : 1;
    const goalOf = s => /\b(import|export)\b/.test(s) ? 'module' : 'script';
    const prog = d => { const goal = d.int(4) ? 'script' : 'module', g = new Gen(d, { goal, fuel: 4 + d.int(25) }); return { ts: g.program(1, 2), goal }; };
    const N = A.length, S = SMALL.length, n3 = N ** 3, n4 = S ** 4;
    return [
      { name: 'one token dropped, doubled or replaced', cases: 110000 * m, gen(d) {
        const { ts, goal } = prog(d); const L = ts.map(t => t.semi ? ';' : t), at = L.map((t, i) => i).filter(i => typeof L[i] === 'string'); if (!at.length) return null;
        const i = d.pick(at); switch (d.int(5)) { case 0: L.splice(i, 1); break; case 1: L.splice(i, 0, L[i]); break; case 2: L.splice(i, 1, randTok(d)); break; case 3: L.splice(i, 0, randTok(d)); break; case 4: { const j = at[(at.indexOf(i) + 1) % at.length]; [L[i], L[j]] = [L[j], L[i]]; } }
        return { src: render(L, d.pick(modes), d), goal };
      } },
      ...forms.phases(tier, null, 2).map(p => p.name === 'forbidden forms in place' ? Object.assign(p, { cases: p.cases * 3 }) : p),
      ...ingrid.phases(tier, 2),
      ...ctxgrid.phases(tier, null, 0.6).filter(p => p.name !== 'context words in places'),
      { name: 'several edits', cases: 50000 * m, gen(d) { const { ts, goal } = prog(d); return { src: render(mutateTokens(d, ts, 4), d.pick(modes), d), goal }; } },
      { name: 'character edits', cases: 50000 * m, gen(d) { const { ts, goal } = prog(d); return { src: mutateText(d, render(ts, d.pick(modes), d), 2), goal }; } },
      { name: 'real code, edited', cases: 40000 * m, gen(d) { const R = real(); if (!R.length) return null; const t = mutateTokens(d, d.pick(R), 2); return { src: render(t, 'space'), goal: 'script' }; } },
      { name: 'cut programs', cases: 30000 * m, gen(d) { const { ts, goal } = prog(d); const s = Array.from(render(ts, d.pick(modes), d)); return { src: s.slice(0, d.int(s.length + 1)).join(''), goal }; } },
      { name: 'two programs spliced', cases: 30000 * m, gen(d) { const x = prog(d), y = prog(d), L = x.ts.slice(0, d.int(x.ts.length + 1)).concat(y.ts.slice(d.int(y.ts.length + 1))).map(t => t.semi ? ';' : t); return { src: render(L, 'space', d), goal: x.goal }; } },
      { name: 'token soup in context', cases: 150000 * m, gen(d) { const n = d.weigh([[3, 1], [5, 2], [5, 3], [3, 4], [2, 6]]); const s = d.list(n, n, () => d.chance(94) ? d.pick(A) : randTok(d)).join(' '); const t = d.pick(WRAP)(s); return { src: t, goal: /import|export/.test(t) ? 'module' : d.int(8) ? 'script' : 'module' }; } },
      { name: 'all short token sequences', cases: th ? N + N * N + n3 : N + N * N + 30000, gen(d, ctx, i) { let k = i, len = 1; if (k >= N) { k -= N; len = 2; if (k >= N * N) { k -= N * N; len = 3; if (!th) k = d.int(n3); } } const r = []; for (let j = 0; j < len; j++) { r.push(A[k % N]); k = Math.floor(k / N); } const s = r.join(' '); return { src: s, goal: goalOf(s) }; } },
      { name: 'all sequences of four', cases: th ? n4 : 60000, gen(d, ctx, i) { let k = th ? i : d.int(n4); const r = []; for (let j = 0; j < 4; j++) { r.push(SMALL[k % S]); k = Math.floor(k / S); } return { src: r.join(' '), goal: 'script' }; } },
    ];
  },
  check: (c, ctx) => { const f = differential(c, ctx, { want: 'reject' }); return f; },
  nontrivial: (c, ctx) => ctx.last === 'reject',
  rule: 'Mutated generated and real programs, cut and spliced ones, `in` at every depth of the heads of for statements, token soup inside grammatical contexts, and all token sequences of length 1 to 3 (4 over a smaller alphabet; sampled in the quick tier). What the reference parser rejects for a grammatical reason (and Babel does not accept) must be rejected. Non-trivial: the reference rejects the text for a reason that counts.',
  assumptions: ['Reference: acorn 8.19 at ecmaVersion 2019, arbiter Babel. Early errors giron documents as not implemented are excluded (ref.js).'],
};
