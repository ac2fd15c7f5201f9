'use strict';
const { Gen, render } = require('../gen.js');
const { mutateTokens } = require('../mutate.js');
const { bad, E, ref } = require('../common.js');
const { babel } = require('../arbiter.js');
const { corpus } = require('../corpus.js');
const { ST, EX } = require('./C21.js');
const modes = ['space', 'tight', 'wild'];
// Uses of a word W as a name that only sloppy code (or, for await, only a script) may have
const USES = ['W', 'W=1', 'W++', '--W', 'x=W', 'W.a', 'W[0]', 'W()', 'new W', 'f(W)', '[W]', '({W})', '({a:W})', '({[W]:1})', '`${W}`', 'typeof W', '-W', 'a+W', 'W/2', 'W?a:b', 'a?W:b', 'a=>W', 'if(W);', 'for(;W;);', 'for(W in a);', 'for(W of a);', 'switch(W){}', 'throw W', 'var W', 'var W=1', 'var a,W', 'let [W]=a', 'const {a:W}=b', 'var {W}=a', 'var {W=1}=a', 'var [...W]=a', 'var {...W}=a', 'function W(){}', 'function f(W){}', 'function f(a,W=1){}', 'function f({W}){}', 'function f(...W){}', 'x=function(W){}', 'x=function(){W}', 'W=>1', '(W)=>1', '(a,W)=>1', '({W})=>1', '([W])=>1', '(W=1)=>1', '(...W)=>1', '(a=W)=>1', '[W]=a', '({W}=a)', '({a:W}=b)', '[...W]=a', '({...W}=a)', 'for(var W of a);', 'for(let [W] of a);', 'try{}catch(W){}', 'W:;', 'W:for(;;)break W', 'W:for(;;)continue W', '({a(W){}})', '({set a(W){}})', '({a(){W}})', '({get a(){return W}})', 'class A extends W{}', 'W:{break W}', 'x={a:[{W}]}', 'f`${W}`', 'W`a`', '(W)', '(W,a)', 'a,W', 'W\n++\na', 'W=>{}', 'do W;while(a)', 'while(a)W', 'for(W;;);', 'for(W.a in b);', 'x=W=>W', 'x={W,}', 'x=(a,{b=W})=>c', 'W instanceof a', 'delete W.a', 'void W', '!W', 'W**2', 'W=>W=>W', '({W=1}=a)', '({a:W=1}=b)', '[W=1]=a', '([W=1])=>a', '({W=1})=>a', '({a:W=1})=>b', '[[W]]=a', 'export_=W'];
const STRICTWORDS = ['implements', 'interface', 'package', 'private', 'protected', 'public', 'static', 'yield', 'let'];
const LETBAD = /let \[W|const|let W|^W\[|^W\n|\bW:|^W$|class A ext|^for\(W|do W|while\(a\)W|^W=>|let/;
// Uses of a word as a property name, legal everywhere
const PROPS = ['a.W', 'a.W()', '({W:1})', '({W(){}})', '({get W(){}})', '({async W(){}})', '({*W(){}})', 'class A{W(){}}', 'class A{static W(){}}', 'class A{get W(){}}', 'var {W:a}=b', '({W:a}=b)', '({W:a})=>b', 'a.b.W.c', 'a.W=1', 'x={"a":1,W:2}', 'new a.W', 'a.W`b`', 'a.W++', 'x=class{async W(){}}', 'a?.5:b.W'];
const PROPOK = w => true;
const SLOPPY = ['with(a)b', 'with(a){b}', 'with(a)with(b)c', 'if(a)with(b);', 'for(;;)with(a){}', 'l:with(a);', 'function f(){with(a);}', 'x=()=>{with(a)b}', 'x={m(){with(a);}}', 'x={get a(){with(b)c}}', '(function(){with(a);})', 'with(a){function f(){}}', 'try{with(a);}catch(e){}', 'switch(a){case b:with(c);}', 'do with(a);while(b)', 'async function f(){with(a)b}', 'function*g(){with(a)b}', 'if(a);else with(b);', '{with(a);}'];
const esc = (w, d) => { const i = d.int(w.length), h = w.charCodeAt(i).toString(16); return w.slice(0, i) + d.pick(['\\u00' + h, `\\u{${h}}`, `\\u{0${h}}`]) + w.slice(i + 1); };
const put = (t, w) => t.replace(/W/g, w);
module.exports = {
  scale: 'all', scaleAs: c => ({ t: 'same', s: c.src }), scaleK: 0.6,
  plan(tier) {
    const m = tier === 'thorough' ? 12 : 1;
    const html = c => /<!--|-->/.test(c.s || c.src || '') ? null : c;
    const prog = d => { if (d.chance(20) && corpus().stmts.length) return null; const goal = d.int(3) ? 'module' : 'script'; const g = new Gen(d, { goal, fuel: 3 + d.int(30), w: { import: 0, export: 0, exotic: d.pick([6, 20]) } }); return g.program(1, 3); };
    const text = (d, f) => { const ts = prog(d); return ts ? render(f ? f(ts) : ts, d.pick(modes), d) : d.list(1, 2, () => d.pick(corpus().stmts)).join('\n').replace(/[\ud800-\udfff]/g, 'u'); };
    const ctxs = d => { const n = d.weigh([[5, 0], [4, 1], [2, 2], [1, 3]]); return d.list(n, n, () => { let i; do i = d.int(ST.length); while (/[sy]/.test(ST[i][3]) || /with\(/.test(ST[i][0])); return i; }); };
    const wrap = (d, s, via) => { let t = '¦'; for (const i of via) t = t.replace('¦', () => '\n' + ST[i][0] + '\n'); const pre = d.int(2) ? prior(d) + '\n;' : '', post = d.chance(20) ? prior(d) : '', inner = t.replace('¦', () => (via.length && d.int(3) ? pre : '') + '\n' + s + '\n;'); return (d.int(2) ? pre : '') + inner + '\n;' + post; };
    const prior = d => { const g = new Gen(d, { goal: 'module', fuel: 2 + d.int(12), w: { import: 0, export: 0 } }); return render(g.program(1, 2), 'space', d).replace(/"use strict"|'use strict'/g, '1'); };
    return [
      { name: 'programs', cases: 90000 * m, gen: d => html({ t: 'same', s: text(d) }) },
      { name: 'near misses', cases: 80000 * m, gen: d => html({ t: 'same', s: text(d, ts => mutateTokens(d, ts, 2)) }) },
      { name: 'await as a name', cases: 30000 * m, gen(d) { const t = d.pick(USES); return { t: 'only', src: wrap(d, put(t, d.chance(15) ? esc('await', d) : 'await'), ctxs(d)), what: 'await as a name: ' + t }; } },
      { name: 'strict reserved words', cases: 50000 * m, gen(d) { const t = d.pick(USES), w = d.pick(STRICTWORDS); if (w === 'let' && LETBAD.test(t)) return null; const via = ctxs(d); return { t: 'only', src: wrap(d, put(t, d.chance(15) && w !== 'let' ? esc(w, d) : w), via), what: w + ' as a name: ' + t }; } },
      { name: 'with statements', cases: 15000 * m, gen(d) { const t = d.pick(SLOPPY); return { t: 'only', src: wrap(d, t, ctxs(d)), what: 'a with statement: ' + t }; } },
      { name: 'property names', cases: 20000 * m, gen(d) { const t = d.pick(PROPS), w = d.pick([...STRICTWORDS, 'await']); return { t: 'both', src: wrap(d, put(t, d.chance(20) ? esc(w, d) : w), ctxs(d)) }; } },
      { name: 'imports and exports', cases: 30000 * m, gen(d) { const g = new Gen(d, { goal: 'module', fuel: 3 + d.int(20), w: { import: 10, export: 10 } }); return html({ t: 'module', s: render(g.program(1, 4), d.pick(modes), d) }); } },
    ];
  },
  check(c, ctx) {
    const g = ctx.g; ctx.kind = false;
    if (c.t === 'same') {
      if (/\bawait\b|\\/.test(c.s)) return null;
      const a = g.parse(c.s, 'module'), b = g.parse('"use strict";' + c.s, 'script'), s = g.parse(c.s, 'script'), x = bad(a) || bad(b) || bad(s); if (x) return x;
      if (a.k === 'ok' && a.ast.body.some(n => /^(Im|Ex)port/.test(n.type))) { ctx.count('has imports or exports'); return s.k === 'ok' ? { sig: 'import in script', msg: 'import or export accepted by parse_script' } : null; }
      if (/\b(im|ex)port\b/.test(c.s)) return null;
      ctx.kind = a.k === 'ok'; ctx.count(a.k + '/' + s.k);
      if (a.k !== b.k) return { sig: `verdict:${a.k}/${b.k}:` + String(a.type || b.type).replace(/\([^]*/, ''), msg: `module: ${a.k} ${a.disp || ''}, strict script: ${b.k} ${b.disp || ''}` };
      if (a.k !== 'ok') {
        // errors name the same thing at the same place
        const col = b.line === 1 ? b.col - 13 : b.col;
        if (a.line !== b.line || a.col !== col || a.type !== b.type) return { sig: 'error:' + a.type.replace(/\([^]*/, '') + '/' + b.type.replace(/\([^]*/, ''), msg: `module: ${a.disp} at ${a.line}:${a.col}, strict script: ${b.disp} at ${b.line}:${col} (moved)` };
        return null;
      }
      const d = E.diff(E.canon(a.ast.body), E.canon(b.ast.body.slice(1)));
      if (d) return { sig: 'tree', msg: E.showDiff(d, 'module', 'strict script') };
      // what is valid strict code is valid, with the same meaning, as a script too
      if (s.k !== 'ok') return { sig: 'script:' + s.type.replace(/\([^]*/, ''), msg: `accepted by parse_module, but by parse_script: ${s.disp}` };
      if (!/\b(let|yield|static|implements|interface|package|private|protected|public)\b/.test(c.s)) { const e = E.diff(E.canon(a.ast.body), E.canon(s.ast.body)); if (e) return { sig: 'script tree', msg: E.showDiff(e, 'module', 'script') }; }
      return null;
    }
    if (c.t === 'only') {
      const r = ref(c.src, 'script'), r2 = ref(c.src, 'module');
      const q = g.parse(c.src, 'script'), q2 = g.parse(c.src, 'module'), x = bad(q) || bad(q2); if (x) return x;
      if (r.status !== 'ok' || r2.status === 'ok') { ctx.count('not as meant'); return null; }
      ctx.kind = true; ctx.count('sloppy only');
      if (q.k !== 'ok' && !(babel(c.src, 'script').fatal)) return { sig: 'script rejects:' + c.what.replace(/^\w+ as/, 'W as'), msg: `${c.what} rejected by parse_script: ${q.disp}` };
      if (r2.status === 'reject' && q2.k === 'ok') return { sig: 'module accepts:' + c.what.replace(/^\w+ as/, 'W as'), msg: `${c.what} accepted by parse_module` };
      return null;
    }
    if (c.t === 'both') {
      const q = g.parse(c.src, 'script'), q2 = g.parse(c.src, 'module'), x = bad(q) || bad(q2); if (x) return x;
      ctx.kind = true; ctx.count('property names');
      if (q.k !== 'ok' || q2.k !== 'ok') return { sig: 'property name', msg: `a property name is rejected: ${q.disp || ''} / ${q2.disp || ''}` };
      const d = E.diff(E.canon(q.ast.body), E.canon(q2.ast.body)); return d ? { sig: 'property tree', msg: E.showDiff(d, 'script', 'module') } : null;
    }
    const a = g.parse(c.s, 'module'), s = g.parse(c.s, 'script'), x = bad(a) || bad(s); if (x) return x;
    if (a.k !== 'ok') { ctx.count('module not accepted'); return null; }
    const im = a.ast.body.filter(n => /^(Im|Ex)port/.test(n.type)).length; ctx.kind = im > 0; ctx.count(im ? 'with imports or exports' : 'without');
    if (im && s.k === 'ok') return { sig: 'import in script', msg: 'import or export accepted by parse_script' };
    return null;
  },
  nontrivial: (c, ctx) => ctx.kind,
  rule: 'Programs (generated, mutated, real) without import, export and await given to parse_module, to parse_script with a use strict directive before them, and to parse_script: same verdict, error and tree from the first two; sloppy-only constructs and await, strict reserved words as names in ' + USES.length + ' uses and nested contexts: accepted by parse_script, rejected by parse_module; the same words as property names: same tree from both; imports and exports: rejected by parse_script. Non-trivial: accepted by one of the two (first kind) or confirmed as script-only by the reference.',
  assumptions: ['Sources with an await word or a backslash are left out of the first two kinds.'],
};
