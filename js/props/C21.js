'use strict';
const { Gen, render } = require('../gen.js');
const { mutateTokens } = require('../mutate.js');
const { bad, E } = require('../common.js');
const { corpus } = require('../corpus.js');
const scale = require('../scale.js');
const modes = ['space', 'tight', 'wild'];
const at = (o, p) => p.split('.').reduce((x, k) => x === undefined || x === null ? undefined : x[k], o);
// Contexts for a statement list. [text with ¦ for the hole, path of the list that holds the hole, index of its first statement, flags]
// flags: s strict, y yield/await are operators in it, b a block (no directives)
const ST = [
  ['{¦}', 'body', 0, 'b'], ['if(z){¦}else{}', 'consequent.body', 0, 'b'], ['if(z);else{¦}', 'alternate.body', 0, 'b'], ['for(;;){¦}', 'body.body', 0, 'b'], ['for(var z of y){¦}', 'body.body', 0, 'b'], ['while(z){¦}', 'body.body', 0, 'b'], ['do{¦}while(z)', 'body.body', 0, 'b'],
  ['switch(z){case y:¦}', 'cases.0.consequent', 0, 'b'], ['switch(z){case y:default:¦case{}:}', 'cases.1.consequent', 0, 'b'], ['try{¦}catch(z){}', 'block.body', 0, 'b'], ['try{}catch(z){¦}', 'handler.body.body', 0, 'b'], ['try{}catch{¦}', 'handler.body.body', 0, 'b'], ['try{}finally{¦}', 'finalizer.body', 0, 'b'], ['q_:{¦}', 'body.body', 0, 'b'],
  ['function z(){¦}', 'body.body', 0, ''], ['z=function(){¦}', 'expression.right.body.body', 0, ''], ['(function y(x,...w){¦})', 'expression.body.body', 0, ''], ['z=()=>{¦}', 'expression.right.body.body', 0, ''], ['z=(x,{y})=>{¦}', 'expression.right.body.body', 0, ''], ['z=y=>{¦}', 'expression.right.body.body', 0, ''], ['async function z(){¦}', 'body.body', 0, 'y'], ['function*z(){¦}', 'body.body', 0, 'y'], ['z=async()=>{¦}', 'expression.right.body.body', 0, 'y'], ['z=async x=>{¦}', 'expression.right.body.body', 0, 'y'],
  ['class Z{m(){¦}}', 'body.body.0.value.body.body', 0, 's'], ['class Z{static set a(b){¦}}', 'body.body.0.value.body.body', 0, 's'], ['z=class extends y{constructor(){¦}}', 'expression.right.body.body.0.value.body.body', 0, 's'], ['({m(){¦}})', 'expression.properties.0.value.body.body', 0, ''], ['({get z(){¦}})', 'expression.properties.0.value.body.body', 0, ''], ['({a:1,*m(){¦}})', 'expression.properties.1.value.body.body', 0, 'y'],
  ['`${()=>{¦}}`', 'expression.expressions.0.body.body', 0, ''], ['z(function(){¦})', 'expression.arguments.0.body.body', 0, ''], ['(()=>{¦})()', 'expression.callee.body.body', 0, ''], ['!function(){¦}()', 'expression.argument.callee.body.body', 0, ''], ['with(z){¦}', 'body.body', 0, 'b'], ['for(z=()=>{¦};;);', 'init.right.body.body', 0, ''], ['for(var z=function(){¦};;);', 'init.declarations.0.init.body.body', 0, ''], ['for(z={m(){¦}};;);', 'init.right.properties.0.value.body.body', 0, ''], ['for((function(){¦})().x of y);', 'left.object.callee.body.body', 0, ''], ['for(z of function(){¦});', 'right.body.body', 0, ''], ['z=(y=function(){¦})=>x', 'expression.right.params.0.right.body.body', 0, ''],
];
// Contexts for an assignment expression: [text, path of the expression]
const EX = [
  ['(¦)', 'expression'], ['z(¦)', 'expression.arguments.0'], ['z(y,¦,x)', 'expression.arguments.1'], ['z(...¦)', 'expression.arguments.0.argument'], ['new z(¦)', 'expression.arguments.0'], ['[¦]', 'expression.elements.0'], ['[,¦,,y]', 'expression.elements.1'], ['[...¦]', 'expression.elements.0.argument'], ['({z:¦})', 'expression.properties.0.value'], ['({z,y:¦,x(){}})', 'expression.properties.1.value'], ['({[¦]:z})', 'expression.properties.0.key'], ['({[¦](){}})', 'expression.properties.0.key'], ['({...¦})', 'expression.properties.0.argument'],
  ['`${¦}`', 'expression.expressions.0'], ['`a${z}b${¦}c`', 'expression.expressions.1'], ['z`${¦}`', 'expression.quasi.expressions.0'], ['var z=¦', 'declarations.0.init'], ['let y,z=¦,x', 'declarations.1.init'], ['const z=¦', 'declarations.0.init'], ['var [z=¦]=y', 'declarations.0.id.elements.0.right'], ['var {z=¦}=y', 'declarations.0.id.properties.0.value.right'], ['var {[¦]:z}=y', 'declarations.0.id.properties.0.key'], ['[z=¦]=y', 'expression.left.elements.0.right'], ['({z=¦}=y)', 'expression.left.properties.0.value.right'], ['({z:x=¦}=y)', 'expression.left.properties.0.value.right'],
  ['if(¦);', 'test'], ['while(¦);', 'test'], ['do;while(¦)', 'test'], ['for(;¦;);', 'test'], ['for(;;¦);', 'update'], ['for(z of ¦);', 'right'], ['for(var z in ¦);', 'right'], ['for((¦);;);', 'init'], ['for(var z=(¦);;);', 'init.declarations.0.init'], ['switch(¦){}', 'discriminant'], ['switch(z){case ¦:}', 'cases.0.test'], ['throw ¦', 'argument'], ['with(¦);', 'object'],
  ['z=¦', 'expression.right'], ['z+=¦', 'expression.right'], ['z?¦:y', 'expression.consequent'], ['z?y:¦', 'expression.alternate'], ['z,¦', 'expression.expressions.1'], ['(¦,z)', 'expression.expressions.0'], ['z[¦]', 'expression.property'], ['z.y[¦].x', 'expression.object.property'], ['(¦).z', 'expression.object'], ['(¦)()', 'expression.callee'], ['-(¦)', 'expression.argument'], ['z+(¦)*y', 'expression.right.left'], ['typeof(¦)', 'expression.argument'], ['z=(¦)/y', 'expression.right.left'],
  ['function z(y=¦){}', 'params.0.right'], ['z=(y=¦)=>x', 'expression.right.params.0.right'], ['z=({y=¦})=>x', 'expression.right.params.0.value.right'], ['z=([y=¦])=>{}', 'expression.right.params.0.elements.0.right'], ['(x,y=¦)=>{}', 'expression.params.1.right'], ['function z({y=¦}){}', 'params.0.properties.0.value.right'], ['class z{[(¦)](){}}', 'body.body.0.key'], ['class z extends(¦){}', 'superClass'], ['function z(){return ¦}', 'body.body.0.argument'], ['()=>(¦)', 'expression.body'], ['z=>y=>¦', 'expression.body.body'], ['z=()=>¦', 'expression.right.body'],
  ['async function z(){await(¦)}', 'body.body.0.expression.argument'], ['function*z(){yield ¦}', 'body.body.0.expression.argument'], ['function*z(){yield*¦}', 'body.body.0.expression.argument'], ['async(¦)', 'expression.arguments.0'], ['let_(¦,(z)=>y)', 'expression.arguments.0'], ['z.if(¦)', 'expression.arguments.0'], ['{a:z=¦}', 'body.0.body.expression.right'],
  ['for(z[¦];;);', 'init.property'], ['for([¦];;);', 'init.elements.0'], ['for(z(¦);;);', 'init.arguments.0'], ['for(`${¦}`;;);', 'init.expressions.0'], ['for(var z=[¦];;);', 'init.declarations.0.init.elements.0'], ['for(let z=`a${¦}b`;;);', 'init.declarations.0.init.expressions.0'], ['for(var z={[¦]:y};;);', 'init.declarations.0.init.properties.0.key'], ['for(z={y:¦};;);', 'init.right.properties.0.value'], ['for(z=y?¦:x;;);', 'init.right.consequent'], ['for(z[¦] in y);', 'left.property'], ['for(z(¦).y of x);', 'left.object.arguments.0'], ['for([z=¦]of y);', 'left.elements.0.right'], ['for({z:y[¦]}of x);', 'left.properties.0.value.property'], ['for(var [z=¦]of y);', 'left.declarations.0.id.elements.0.right'], ['for(let {[¦]:z}in y);', 'left.declarations.0.id.properties.0.key'], ['for(var z=new y(¦);;);', 'init.declarations.0.init.arguments.0'], ['for(z=(y=¦)=>x;;);', 'init.right.params.0.right'], ['for(z=()=>{return ¦};;);', 'init.right.body.body.0.argument'], ['for(var z=function(){return ¦};;);', 'init.declarations.0.init.body.body.0.argument'], ['for(var z=function(y=¦){};;);', 'init.declarations.0.init.params.0.right'], ['for(z=async(¦);;);', 'init.right.arguments.0'], ['for(z`${¦}`;;);', 'init.quasi.expressions.0'], ['for(let z=[...¦];;);', 'init.declarations.0.init.elements.0.argument'], ['for(const{z=¦}of y);', 'left.declarations.0.id.properties.0.value.right'], ['for({z=¦}of y);', 'left.properties.0.value.right'], ['for(z={y(){return ¦}};;);', 'init.right.properties.0.value.body.body.0.argument'], ['for(z=y=>(¦);;);', 'init.right.body'], ['for(z=[y?¦:x];;);', 'init.right.elements.0.consequent'],
];
const STRICT = /^class/, YA = /await|yield|^async function|function\*/;
const fix = p => p.replace('params.0.value.right', 'params.0.properties.0.value.right');
// Strips what only says whether a string statement is a directive
const plain = v => Array.isArray(v) ? v.map(plain) : v && typeof v === 'object' ? Object.fromEntries(Object.entries(v).filter(([k, x]) => k !== 'directive').map(([k, x]) => [k, plain(x)])) : v;
const words = s => /\b(yield|await)\b|\\/.test(s);
module.exports = {
  ST, EX,
  plan(tier) {
    const m = tier === 'thorough' ? 12 : 1;
    const html = c => JSON.stringify(c).match(/<!--|-->/) ? null : c;
    const stmts = d => { const C = corpus().stmts; if (C.length && d.chance(25)) return d.list(1, 2, () => d.pick(C)).join('\n').replace(/[\ud800-\udfff]/g, 'u'); const g = new Gen(d, { goal: 'script', fuel: 3 + d.int(22) }); return render(g.program(1, 3), d.pick(modes), d); };
    const STR = ['"use strict"', "'use strict'", "'use\\x20strict'", '"a"', "''", '"use strict" ', "'use strict'/**/", '"\\u0061"', '("use strict")', '"use strict".a', "'use strict',a", '`use strict`', '"use asm"'];
    const AFTER = ['with(a)b', 'public=1', 'a=010', '"\\01"', 'var static', 'yield=1', 'a', 'let_', 'if(a);', 'x=>{"use strict"}', 'var interface=1', 'delete a', "'use strict'", ''];
    const led = d => d.list(1, 3, () => d.pick(STR)).join(d.pick([';', '\n', ';;'])) + d.pick([';', '\n']) + (d.int(3) ? d.pick(AFTER) : stmts(d));
    const expr = d => { const C = corpus().exprs; if (C.length && d.chance(25)) return d.pick(C).replace(/[\ud800-\udfff]/g, 'u'); const g = new Gen(d, { goal: 'script', fuel: 3 + d.int(22) }); g.assign(); const s = render(g.out, d.pick(modes), d); return d.chance(8) ? '(' + s + '\n)in b' : s; };
    const chain = d => { const n = d.weigh([[6, 1], [3, 2], [2, 3], [1, 5]]); return d.list(n, n, () => d.int(ST.length)); };
    return [
      { name: 'statements in contexts', cases: 70000 * m, gen: d => html({ t: 'S', s: stmts(d), via: chain(d), goal: d.int(4) ? 'script' : 'module' }) },
      { name: 'statements that begin with strings in contexts', cases: 30000 * m, gen: d => html({ t: 'S', s: led(d), via: chain(d), goal: d.int(6) ? 'script' : 'module' }) },
      { name: 'expressions in contexts', cases: 70000 * m, gen: d => html({ t: 'E', s: expr(d), ex: d.int(EX.length), via: d.int(3) ? [] : chain(d), goal: d.int(4) ? 'script' : 'module' }) },
      { name: 'expressions in expressions', cases: 40000 * m, gen: d => html({ t: 'EE', s: expr(d), ex: d.list(2, 4, () => d.int(EX.length)).filter(i => /^expression/.test(EX[i][1]) && !/=>/.test(EX[i][0])), goal: 'script' }) },
      { name: 'one program after another', cases: 50000 * m, gen: d => html({ t: 'C', s: stmts(d), s2: stmts(d), goal: d.int(4) ? 'script' : 'module' }) },
      { name: 'programs in many contexts', cases: 4000 * m, gen: d => html({ t: 'S', s: stmts(d), via: d.int(3) ? d.list(6, 24, () => d.int(ST.length)) : d.list(30, 70, () => d.int(ST.length)), goal: d.int(4) ? 'script' : 'module' }) },
      { name: 'a program after a long one', cases: 3000 * m, gen(d) { const c = scale.make(d, d.pick(['statements', 'functions', 'bodies', 'variables', 'blanks', 'directives', 'comments', 'strings', 'templates', 'elements', 'properties', 'methods', 'names']), d.int(100) ? '' : 'huge'); if (!c) return null; const goal = d.int(4) ? 'script' : 'module'; if (d.int(2)) return html({ t: 'C', s: c.src, s2: stmts(d), goal }); const g = new Gen(d, { goal: 'script', fuel: 3 + d.int(15) }); return html({ t: 'F', s: c.src, s2: render(mutateTokens(d, g.program(1, 2), 2), d.pick(modes), d), goal: 'script' }); } },
      { name: 'a long program in contexts', cases: 3000 * m, gen(d) { const c = scale.make(d, d.pick(['statements', 'functions', 'bodies', 'variables', 'strings', 'templates', 'elements', 'properties', 'methods', 'blocks', 'cases', 'params', 'quasis']), d.int(100) ? '' : 'huge'); return c && html({ t: 'S', s: c.src, via: chain(d), goal: d.int(4) ? 'script' : 'module' }); } },
      { name: 'a faulty program after another', cases: 30000 * m, gen(d) { const g = new Gen(d, { goal: 'script', fuel: 3 + d.int(15) }); return html({ t: 'F', s: stmts(d), s2: render(mutateTokens(d, g.program(1, 2), 2), d.pick(modes), d), goal: 'script' }); } },
    ];
  },
  check(c, ctx) {
    const g = ctx.g; ctx.kind = false;
    const base = (src, goal) => { const q = g.parse(src, goal); const x = bad(q); return x ? { x } : q.k === 'ok' ? { q, body: q.ast.body } : { q }; };
    if (c.t === 'S') {
      let txt = '¦', strict = c.goal === 'module', block = false, ya = false; const via = c.via.map(i => ST[i]); // outermost first
      const paths = [];
      for (const [i, [t, p, k, fl]] of via.entries()) { txt = txt.replace('¦', () => t.replace('¦', '\n¦\n')); if (fl.includes('s')) strict = true; if (fl.includes('y')) ya = true; block = fl.includes('b'); paths.push(p); }
      if (strict && /with\(z\)/.test(txt)) return null;
      if ((ya || c.goal === 'module') && words(c.s)) return null;
      // in a block no string is a directive
      const pre = (strict ? '"use strict";\n' : '') + (block ? ';' : ''), skip = strict + block;
      const b = base(pre + c.s, 'script'); if (b.x) return b.x; if (!b.body) { ctx.count('not accepted alone'); return null; }
      const list = b.body.slice(skip);
      if (list.some(s => s.directive !== undefined) && /\(x,\.\.\.w|\(x,\{y/.test(txt)) return null;
      const e = base(txt.replace('¦', () => c.s), c.goal); if (e.x) return e.x;
      ctx.kind = true; ctx.count('statements, depth ' + via.length);
      if (!e.body) return { sig: 'rejected in context:' + via[via.length - 1][0], msg: `accepted alone, but in ${txt}: ${e.q.disp}` };
      let n = e.body; for (const p of paths) { if (!Array.isArray(n) || !n[0]) return { sig: 'lost', msg: 'context not found in the tree: ' + p }; n = at(n[0], p); }
      if (!Array.isArray(n)) return { sig: 'lost', msg: 'context not found in the tree' };
      const d = E.diff(E.canon(block ? list : plain(list)), E.canon(block ? n : plain(n)));
      if (d) return { sig: 'tree:' + via[via.length - 1][0], msg: `in ${txt}: ` + E.showDiff(d, 'alone', 'embedded') };
      if (!block) { const w = list.map(s => s.directive !== undefined).join(), v = n.map(s => s.directive !== undefined).join(); if (w !== v && !strict) return { sig: 'directives', msg: `directives ${w} alone, ${v} in ${txt}` }; }
      // and the context is what it is without the code
      const h = base(txt.replace('¦', 'hole;'), c.goal); if (h.x) return h.x; if (!h.body) return { sig: 'context rejected', msg: txt + ': ' + h.q.disp };
      const wipe = (body) => { let n = body, last = null, key = null; for (const p of paths) { const ks = p.split('.'), o = ks.slice(0, -1).reduce((x, k) => x[k], n[0]); last = o; key = ks[ks.length - 1]; n = o[key]; } last[key] = []; return body; };
      const d2 = E.diff(E.canon(wipe(h.body)), E.canon(wipe(e.body)));
      return d2 ? { sig: 'context:' + via[via.length - 1][0], msg: `the tree around the hole of ${txt}: ` + E.showDiff(d2, 'with a hole', 'with the code') } : null;
    }
    if (c.t === 'E' || c.t === 'EE') {
      const ids = [].concat(c.ex); if (!ids.length) return null;
      let txt = '¦', path = []; const via = (c.via || []).map(i => ST[i]); let strict = c.goal === 'module', ya = false;
      for (const [t, p, k, fl] of via) { txt = txt.replace('¦', () => t.replace('¦', '\n¦\n')); if (fl.includes('s')) strict = true; if (fl.includes('y')) ya = true; path.push(p); }
      let ep = ''; for (const [j, i] of ids.entries()) { const [t, p] = EX[i]; if (STRICT.test(t)) strict = true; if (YA.test(t)) ya = true; txt = txt.replace('¦', () => j ? '(' + t.replace(/^\(\{/, '({') + ')' : t); ep += j ? p.replace(/^expression/, '') : fix(p); }
      if (strict && /with\(/.test(txt)) return null;
      if ((ya || c.goal === 'module') && words(c.s)) return null;
      if (/=>¦/.test(txt) && /^\s*(\/\*[^]*?\*\/\s*)*\{/.test(c.s)) return null;
      const b = base((strict ? '"use strict";' : '') + '(' + c.s + '\n)', 'script'); if (b.x) return b.x; if (!b.body || b.body.length !== (strict ? 2 : 1)) { ctx.count('not accepted alone'); return null; }
      const alone = b.body[strict ? 1 : 0].expression; if (alone.type === 'SequenceExpression') return null;
      const full = txt.replace('¦', () => c.s + '\n'), e = base(full, c.goal); if (e.x) return e.x;
      ctx.kind = true; ctx.count('expressions');
      if (!e.body) return { sig: 'rejected in context:' + EX[ids[ids.length - 1]][0], msg: `accepted in parentheses, but in ${txt}: ${e.q.disp}` };
      let n = e.body; for (const p of path) n = at(n[0], p);
      n = at(n && n[0], ep); if (!n) return { sig: 'lost:' + EX[ids[ids.length - 1]][0], msg: `nothing at ${ep} for ${txt}` };
      const d = E.diff(E.canon(alone), E.canon(n));
      if (d) return { sig: 'tree:' + EX[ids[ids.length - 1]][0], msg: `in ${txt}: ` + E.showDiff(d, 'alone', 'embedded') };
      const h = base(txt.replace('¦', 'hole'), c.goal); if (h.x) return h.x; if (!h.body) return { sig: 'context rejected', msg: txt + ': ' + h.q.disp };
      const wipe = body => { let n = body; for (const p of path) n = at(n[0], p); const ks = ep.split('.'), o = ks.slice(0, -1).reduce((x, k) => x[k], n[0]); o[ks[ks.length - 1]] = []; return body; };
      const d2 = E.diff(E.canon(wipe(h.body)), E.canon(wipe(e.body)));
      return d2 ? { sig: 'context:' + EX[ids[ids.length - 1]][0], msg: `the tree around the hole of ${txt}: ` + E.showDiff(d2, 'with a hole', 'with the code') } : null;
    }
    // concatenation
    const strict = c.goal === 'module', pre = strict ? '"use strict";' : '';
    if (strict && (words(c.s) || words(c.s2))) return null;
    const a = base(pre + c.s, 'script'); if (a.x) return a.x; if (!a.body) { ctx.count('not accepted alone'); return null; }
    if (a.body.some(s => s.directive !== undefined && !strict && /use/.test(s.expression.raw))) return null;
    const b = base(pre + c.s2, 'script'); if (b.x) return b.x;
    const la = strict ? a.body.slice(1) : a.body;
    const joint = c.s + '\n;\n', e = base(joint + c.s2, c.goal); if (e.x) return e.x;
    if (!b.body) {
      if (c.t !== 'F' || strict || /use/.test(c.s2)) return null;
      ctx.kind = true; ctx.count('faulty');
      if (e.body) return { sig: 'faulty accepted', msg: `rejected alone (${b.q.disp}), accepted after another program` };
      const n = joint.split(/\r\n|[\n\r\u2028\u2029]/).length - 1;
      if (e.q.line !== b.q.line + n || e.q.col !== b.q.col || e.q.type !== b.q.type) return { sig: 'faulty:' + b.q.type.replace(/\([^]*/, '') + '/' + e.q.type.replace(/\([^]*/, ''), msg: `alone ${b.q.disp} at ${b.q.line}:${b.q.col}, after ${n} lines ${e.q.disp} at ${e.q.line}:${e.q.col}` };
      return null;
    }
    let lb = strict ? b.body.slice(1) : b.body;
    if (!strict && lb.some(s => s.directive !== undefined && /use/.test(s.expression.raw))) return null;
    ctx.kind = true; ctx.count('concatenations');
    if (!e.body) return { sig: 'concatenation rejected', msg: e.q.disp };
    const k = e.body.length - la.length - lb.length; // the semicolon may end the first program's last statement
    const d = E.diff(E.canon(plain([...la, ...(k === 1 || !la.length ? [{ type: 'EmptyStatement' }] : []), ...lb])), E.canon(plain(e.body)));
    return d ? { sig: 'concatenation', msg: E.showDiff(d, 'apart', 'together') } : null;
  },
  nontrivial: (c, ctx) => ctx.kind,
  rule: 'Generated and real statement lists (some of which begin with strings that are directives only at the start of a function) placed in up to five nested statement contexts out of ' + ST.length + ', expressions in up to four nested ones out of ' + EX.length + ', and programs (also faulty ones) put after one another. Also in chains of up to 70 contexts, and pieces of up to 70000 repeated parts. The tree (or error) of the piece must be that of the piece alone, and the tree around it that of the context with a name in its place. Non-trivial: the piece is accepted alone (or, in the last kind, rejected).',
  assumptions: ['Pieces with yield or await as words are left out of contexts where these are operators, and those with a directive out of functions whose parameters are not simple. In blocks, where no string is a directive, a list is compared with itself after an empty statement.'],
};
