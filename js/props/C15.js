'use strict';
const { E, ref, differential, bad } = require('../common.js');
const ctxgrid = require('../ctxgrid.js');
// State: fn, loop, sw, labels {name: isLoop}, gen, async, strict, module
const fnState = (s, o) => Object.assign({}, s, { fn: true, loop: false, sw: false, labels: {}, gen: false, async: false, noYA: false }, o);
// Directive prologues: [text, makes the code strict]
const PRO = [['"use strict";', 1], ["'use strict'\na;", 1], ['"a";"use strict";', 1], ["'a'\n'use strict';", 1], ['"use strict";"a";', 1], ['/**/"use strict"/**/;', 1], ['"use asm";"b"\n"use strict"\n', 1],
  ['("use strict");', 0], ['"use\\x20strict";', 0], ["'use\\u0020strict';", 0], ['"use strict"+a;', 0], ['a;"use strict";', 0], ['{"use strict"}', 0], ['"Use strict";', 0], ['" use strict";', 0], ['"use strict ";', 0], ['`use strict`;', 0], [';"use strict";', 0], ['"use strict".a;', 0], ['"use strict",a;', 0], ['"use\\\nstrict";', 0], ['a="use strict";', 0], ['"use strict"\n+a;', 0], ['"use strict"\n.a;', 0], ['"use strict"\n(a);', 0], ['"use strict"in a;', 0], ['"use  strict";', 0], ['"use\tstrict";', 0], ['if(a)"use strict";', 0], ['"use strict"?a:b;', 0], ['var a;"use strict";', 0], ['"a"+"use strict";', 0], ['function q(){"use strict"}', 0], ['(function(){"use strict"});', 0], ['x=()=>{"use strict"};', 0], ['x={m(){"use strict"}};', 0], ['class Q{m(){}}', 0], ['x=class{};', 0], ['x=class extends a{};', 0], ['(function q(){"use strict";return a})();', 0]];
const pro = (d, s, quiet) => d.chance(quiet || 70) ? ['', s] : (p => [p[0], p[1] ? Object.assign({}, s, { strict: true }) : s])(d.pick(PRO));
const LAB = ['l', 'm', 'n', 'o', '$'];
const free = (d, s) => { const f = LAB.filter(x => !(x in s.labels)); return f.length ? d.pick(f) : null; };
const withLabel = (s, l, loop) => Object.assign({}, s, { labels: Object.assign({}, s.labels, { [l]: loop }) });
const LOOPS = [['for(;;)', ''], ['while(a)', ''], ['do ', ' while(a);'], ['for(x in a)', ''], ['for(x of a)', ''], ['for(var x of a)', ''], ['for(let x in a)', ''], ['for(const x=1;;)', '']];
const RES = ['implements', 'interface', 'package', 'private', 'protected', 'public', 'static'];
// Wrappers. Each: (d, state, rec) -> text, where rec.S(state) and rec.X(state) give statements / an expression for the hole.
const SW = { // statement wrappers
  block: (d, s, r) => `{${r.S(s)}}`,
  if: (d, s, r) => d.pick([() => `if(a){${r.S(s)}}`, () => `if(a);else{${r.S(s)}}`, () => `if(a){${r.S(s)}}else{${r.S(s)}}`])(),
  try: (d, s, r) => d.pick([() => `try{${r.S(s)}}catch(e){}`, () => `try{}catch(e){${r.S(s)}}`, () => `try{}finally{${r.S(s)}}`, () => `try{}catch{${r.S(s)}}finally{${r.S(s)}}`])(),
  loop: (d, s, r) => { const l = d.pick(LOOPS); return `${l[0]}{${r.S(Object.assign({}, s, { loop: true }))}}${l[1]}`; },
  single: (d, s, r) => { const l = d.pick(LOOPS); return `${l[0]}${r.one(Object.assign({}, s, { loop: true }))}${l[1]}`; },
  switch: (d, s, r) => { const t = Object.assign({}, s, { sw: true }); return d.pick([() => `switch(a){case b:${r.S(t)}}`, () => `switch(a){default:${r.S(t)}}`, () => `switch(a){case b:{${r.S(t)}}default:${r.S(t)}}`])(); },
  label: (d, s, r) => { const l = free(d, s); if (!l) return r.S(s); return `${l}:{${r.S(withLabel(s, l, false))}}`; },
  labelIf: (d, s, r) => { const l = free(d, s); if (!l) return r.S(s); return `${l}:if(a){${r.S(withLabel(s, l, false))}}`; },
  labelSwitch: (d, s, r) => { const l = free(d, s); if (!l) return r.S(s); return `${l}:switch(a){case b:${r.S(Object.assign(withLabel(s, l, false), { sw: true }))}}`; },
  labelLoop: (d, s, r) => { const l = free(d, s); if (!l) return r.S(s); const k = d.pick(LOOPS); return `${l}:${k[0]}{${r.S(Object.assign(withLabel(s, l, true), { loop: true }))}}${k[1]}`; },
  label2: (d, s, r) => { const l = free(d, s); if (!l) return r.S(s); const s2 = withLabel(s, l, true), m = free(d, s2); if (!m) return r.S(s); const k = d.pick(LOOPS); return `${l}:${m}:${k[0]}{${r.S(Object.assign(withLabel(s2, m, true), { loop: true }))}}${k[1]}`; },
  with: (d, s, r) => s.strict ? r.S(s) : `with(a){${r.S(s)}}`,
  fn: (d, s, r) => { const gen = d.chance(25), as = d.chance(25), [p, t] = pro(d, fnState(s, { gen, async: as })); return `${as ? 'async ' : ''}function${gen ? '*' : ''} ${r.name(s, t)}(${r.params(s, t)}){${p}${r.S(t)}}`; },
  class: (d, s, r) => r.cls(s, 'class A'),
  expr: (d, s, r) => d.pick([() => `x=${r.X(s)};`, () => `(${r.X(s)});`, () => `var z=${r.X(s)};`, () => `f(${r.X(s)});`, () => `if(${r.X(s)});`, () => `throw ${r.X(s)};`, () => `\`\${${r.X(s)}}\`;`, () => `for(x of ${r.X(s)});`, () => `for(;${r.X(s)};);`, () => `switch(${r.X(s)}){case ${r.X(s)}:}`, () => `while(${r.X(s)});`, () => `do;while(${r.X(s)});`, () => `let{y=${r.X(s)}}=a;`, () => `[x=${r.X(s)}]=a;`, () => `x={[${r.X(s)}]:1};`, () => s.strict ? `(${r.X(s)});` : `with(${r.X(s)});`])(),
  exprLabel: (d, s, r) => d.pick([() => `for(var q=${r.X(s)};;);`, () => `try{}catch({e=${r.X(s)}}){}`, () => `a[${r.X(s)}]++;`])(),
};
const XW = { // expression wrappers
  par: (d, s, r) => `(${r.X(s)})`, arr: (d, s, r) => `[${r.X(s)}]`, call: (d, s, r) => `f(${r.X(s)})`, obj: (d, s, r) => `{a:${r.X(s)}}`, tpl: (d, s, r) => `\`\${${r.X(s)}}\``, cond: (d, s, r) => `(a?${r.X(s)}:${r.X(s)})`, mem: (d, s, r) => `a[${r.X(s)}]`, bin: (d, s, r) => `a+(${r.X(s)})`,
  fn: (d, s, r) => { const gen = d.chance(25), as = d.chance(25), [p, t] = pro(d, fnState(s, { gen, async: as })); return `${as ? 'async ' : ''}function${gen ? '*' : ''}(${r.params(s, t)}){${p}${r.S(t)}}`; },
  named: (d, s, r) => { const [p, t] = pro(d, fnState(s)); return `function ${r.name(t, t)}(${r.params(s, t)}){${p}${r.S(t)}}`; },
  arrow: (d, s, r) => { const as = d.chance(30), [p, t] = pro(d, fnState(s, { async: as })); return `${as ? 'async' : ''}(${d.pick(['', 'a', 'a,b', '...a'])})=>{${p}${r.S(t)}}`; },
  arrowX: (d, s, r) => { const as = d.chance(30), t = fnState(s, { async: as }); return `${as ? 'async' : ''}()=>(${r.X(t)})`; },
  method: (d, s, r) => { const k = d.int(5), [p, t] = pro(d, fnState(s, { gen: k === 1 || k === 3, async: k === 2 || k === 3 })); return `{${['', '*', 'async ', 'async*', 'get '][k]}m(){${p}${r.S(t)}}}`; },
  setter: (d, s, r) => { const [p, t] = pro(d, fnState(s)); return `{set m(a){${p}${r.S(t)}}}`; },
  computed: (d, s, r) => `{[${r.X(s)}](){}}`,
  class: (d, s, r) => r.cls(s, d.pick(['class', 'class A'])),
  def: (d, s, r) => { const t = fnState(s); return `function(a=${r.X(Object.assign(t, { noYA: true }))}){}`; },
};
// Finished constructs: what they allow inside must not be allowed after them, and what was allowed before them still is
const CLOSED = ['switch(a){}', 'switch(a){case b:}', 'switch(a){default:}', 'switch(a){case b:break;default:}', 'switch(a){case b:switch(c){}}', 'for(;;);', 'for(;;){}', 'while(a);', 'do;while(a);', 'for(x in a);', 'for(x of a){continue}', 'while(a)break;', 'zz:;', 'zz:{}', 'zz:for(;;);', 'zz:for(;;)continue zz;', 'zz:yy:while(a);', 'zz:{break zz}', 'if(a);', 'if(a);else;', 'try{}catch(e){}', 'try{}finally{}', ';', '{}',
  '(function(){});', '(function(){return});', '(function*(){yield});', '(async function(){await a});', '(async function*(){for await(x of a);});', 'x=()=>{};', 'x=()=>{return};', 'x=a=>a;', 'x=async()=>{};', 'x=async()=>await a;', 'x=async a=>a;', 'x=(a,b)=>c;', 'x={m(){}};', 'x={*m(){yield}};', 'x={async m(){await a}};', 'x={get m(){return}};', 'x={set m(a){}};', 'x=class{};', 'x=class extends a{m(){}};', 'x=class{*m(){yield}};', 'x=class{async m(){await a}};', 'x=class{static m(){}};',
  '(function(){"use strict"});', 'x=()=>{"use strict"};', 'x={m(){"use strict"}};', '(function(a=()=>{}){});', '(function(a=function(){return}){});', '(function({a=function*(){yield}}){});', '(a,b);', '(a);', 'f(a);', 'async(a);', 'x=`${a}`;', 'x=`${function(){return}}`;', 'x=[a,,b];', 'x={a,b};', '[x]=a;', '({x}=a);', '[x=function*(){}]=a;', '({x=async()=>{}}=a);', '(function(){for(;;);});', '(function(){switch(a){}});', '(function(){zz:;});', '(function(){zz:for(;;)break zz;});', 'x=class{m(){for(;;);}};', 'x=a?b:c;', 'if(a){for(;;);}', 'for(;;){(function(){})}', 'for(;;)for(;;);', 'for(;;){switch(a){}}', 'switch(a){case b:for(;;);}'];
function gen(d, goal, want) {
  let fuel = d.range(2, 9), legal = true, bads = want ? 1 : 0, probes = 0;
  // a probe: [text, legal]; when illegal ones are not wanted, draws until a legal one comes
  const choose = (s, list) => { let it = list(s); probes++; if (bads > 0 && d.chance(55)) { const b = it.filter(x => !x[1]); if (b.length) { bads--; legal = false; return d.pick(b)[0]; } } const g = it.filter(x => x[1]); return d.pick(g)[0]; };
  const stmtProbes = s => {
    const ya = !s.noYA, l = d.pick(LAB), x = d.pick(RES), has = l in s.labels;
    return [['a;', true], ['return;', s.fn], ['return a;', s.fn], ['return\n', s.fn], ['break;', s.loop || s.sw], ['continue;', s.loop], [`break ${l};`, has], [`continue ${l};`, has && s.labels[l]], ['if(a)break;', s.loop || s.sw], ['if(a)continue;else;', s.loop], ['if(a)return', s.fn], ['with(a);', !s.strict], ['with(a){}', !s.strict],
      [`var ${x};`, !s.strict], [`${x}=1;`, !s.strict], [`${x};`, !s.strict], [`x={${x}};`, !s.strict], [`var{${x}}=a;`, !s.strict], [`try{}catch(${x}){}`, !s.strict], [`(${x})=>1;`, !s.strict], [`${x}=>1;`, !s.strict], [`f(${x});`, !s.strict], [`[...${x}];`, !s.strict], ['var let;', !s.strict], ['x=let;', !s.strict], [`a.${x};`, true], [`x={${x}:1};`, true], ['var eval;', !s.strict], ['try{}catch(arguments){}', !s.strict], ['eval=>1;', !s.strict], ['(arguments)=>1;', !s.strict], [`var [${x}]=a;`, !s.strict], [`for(var ${x} of a);`, !s.strict], [`for(${x} in a);`, !s.strict], [`x=${x}+1;`, !s.strict], [`${x}.a;`, !s.strict], [`${x}\`\`;`, !s.strict],
      ['yield a;', ya && s.gen], ['yield*a;', ya && s.gen || !s.gen && !s.strict], ['x=yield;', ya && s.gen || !s.gen && !s.strict], ['yield=1;', !s.gen && !s.strict], ['var yield;', !s.gen && !s.strict], ['x={yield};', !s.gen && !s.strict], ['(yield);', ya && s.gen || !s.gen && !s.strict], ['f(yield,yield);', ya && s.gen || !s.gen && !s.strict], ['x={yield:1};', true], ['a.yield;', true], ['yield\n+a;', ya && s.gen || !s.gen && !s.strict],
      ['await a;', ya && s.async], ['x=await a;', ya && s.async], ['await=1;', !s.async && !s.module], ['var await;', !s.async && !s.module], ['x={await};', !s.async && !s.module], ['x=await;', !s.async && !s.module], ['x={await:1};', true], ['a.await;', true], ['for await(x of a);', s.async], ['await(a);', s.async || !s.module], ['await=>1;', !s.async && !s.module], ['await:;', !s.async && !s.module], ['yield:;', !s.gen && !s.strict], [`${x}:;`, !s.strict]];
  };
  const exprProbes = s => { const ya = !s.noYA, x = d.pick(RES); return [['a', true], [x, !s.strict], [`{${x}}`, !s.strict], [`${x}=>1`, !s.strict], [`function ${x}(){}`, !s.strict], [`function(${x}){}`, !s.strict], ['(yield)', ya && s.gen || !s.gen && !s.strict], ['(yield a)', ya && s.gen], ['(await a)', ya && s.async], ['(await)', !s.async && !s.module], ['{await}', !s.async && !s.module], ['{yield}', !s.gen && !s.strict], ['function yield(){}', !s.strict], ['function await(){}', !s.module], ['function(yield){}', !s.strict], ['function*(){yield}', true], ['async function(){await a}', true], ['function(){return}', true], ['async()=>await a', true], ['let', !s.strict], ['function(eval){}', !s.strict], ['function eval(){}', !s.strict]].filter(p => !(s.noYA && /yield|await/.test(p[0]))); };
  const r = {
    S(s) { let o = fuel > 0 && d.chance(25) ? d.pick(CLOSED) : ''; for (let n = d.weigh([[5, 1], [3, 2], [1, 3]]); n > 0; n--) { o += fuel-- > 0 && d.chance(75) ? SW[d.pick(Object.keys(SW))](d, s, r) : choose(s, stmtProbes); if (!/[;}\n]$/.test(o)) o += ';'; } return o; },
    one(s) { return d.int(2) ? `{${choose(s, stmtProbes)}}` : d.pick([() => `if(a){${r.S(s)}}`, () => `switch(a){case 1:${r.S(Object.assign({}, s, { sw: true }))}}`, () => `{${r.S(s)}}`])(); },
    X(s) { return fuel-- > 0 && d.chance(70) ? XW[d.pick(Object.keys(XW))](d, s, r) : choose(s, exprProbes); },
    name(outer, own) { if (!d.chance(12)) return 'g'; const n = d.pick(RES), ok = !outer.strict && !own.strict; if (ok) return n; if (bads > 0 && d.int(2)) { bads--; legal = false; return n; } return 'g'; },
    params(outer, own) { if (!d.chance(15)) return d.pick(['', '', 'p', 'p,q']); const n = d.pick([...RES, 'eval']), ok = !own.strict; if (ok) return n; if (bads > 0 && d.int(2)) { bads--; legal = false; return n; } return 'p'; },
    cls(s, head) {
      const t = Object.assign({}, s, { strict: true }), ext = d.chance(25) ? ` extends (${r.X(t)})` : '';
      const member = () => { const k = d.int(9), st = d.chance(25) ? 'static ' : ''; const b = fnState(t, { gen: k === 1 || k === 3, async: k === 2 || k === 3 }); if (k === 4) return `${st}set m(a){${r.S(b)}}`; if (k === 5) return `${st}[${r.X(t)}](){}`; if (k === 6) return `constructor(){${r.S(fnState(t))}}`; return `${st}${['', '*', 'async ', 'async*'][k] || (k === 7 ? 'get ' : '')}m(){${r.S(b)}}`; };
      return `${head}${ext}{${member()}}`;
    },
  };
  const s0 = { fn: false, loop: false, sw: false, labels: {}, gen: false, async: false, strict: goal === 'module', module: goal === 'module' };
  const [p, s1] = pro(d, s0, 75);
  const src = p + r.S(s1) + (d.int(2) ? r.S(s1) : '');
  return { src, legal, probes };
}
module.exports = {
  scale: ['labels', 'blocks', 'functions', 'directives', 'bodies', 'statements'],
  text: undefined,
  plan(tier) {
    const m = tier === 'thorough' ? 14 : 1;
    const mk = want => d => { const goal = d.int(5) ? 'script' : 'module'; const x = gen(d, goal, want); return { src: x.src, goal, legal: x.legal }; };
    return [
      { name: 'legal nestings', cases: 110000 * m, gen: mk(false) },
      { name: 'nestings with one illegal place', cases: 110000 * m, gen: d => { const c = mk(true)(d); return c.legal ? null : c; } },
      ...ctxgrid.phases(tier),
    ];
  },
  check(c, ctx) {
    if (c.legal === undefined) { const f = differential(c, ctx); ctx.kind = ctx.last === 'ok' || ctx.last === 'reject'; return f; }
    const r = ref(c.src, c.goal), q = ctx.g.parse(c.src, c.goal), x = bad(q); ctx.kind = false; if (x) return x;
    // the reference parser must agree with the model before the model's verdict counts
    if (r.status === 'dontcare') { ctx.count('reference dontcare'); return null; }
    if ((r.status === 'ok') !== c.legal) { ctx.count('model and reference disagree'); if (process.env.VERIF_COLLECT) return { sig: `model ${c.legal} reference ${r.status} ${r.msg||""}`, msg: r.msg || '' }; return null; }
    ctx.kind = true; ctx.count(c.legal ? 'legal' : 'illegal');
    if (c.legal && q.k !== 'ok') return { sig: 'legal rejected:' + String(q.disp).replace(/token .*/s, 'token'), msg: `legal source rejected: ${q.disp}` };
    if (!c.legal && q.k === 'ok') return { sig: 'illegal accepted:' + r.msg.replace(/'[^']*'/g, "'_'"), msg: `illegal source accepted (${r.msg})` };
    return c.legal ? differential(c, ctx) : null;
  },
  nontrivial: (c, ctx) => ctx.kind,
  rule: 'Every context word in every place of every kind of function (and after it), judged by the reference; nestings of functions, generators, async functions, arrows, methods, classes, loops, switches, labels, with and (pseudo-)directive prologues, holding return, break, continue, with, yield, await and strict reserved words at places where a model of the context says they are legal, or at exactly one place where it says they are not. Non-trivial: the model and the reference parser agree on the verdict.',
  assumptions: ['The verdict is that of a context model written for this check; where the reference parser (acorn 8.19) disagrees with it the case is dropped and counted.'],
};
