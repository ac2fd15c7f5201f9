'use strict';
const { Gen, render } = require('../gen.js');
const { mutateTokens, mutateText } = require('../mutate.js');
const { bad, E } = require('../common.js');
const { corpus } = require('../corpus.js');
const modes = ['space', 'tight', 'wild'];
// Tilts of the generator towards one family of node types each
const TILT = [{}, { template: 12, tagged: 6 }, { classExpr: 10, class: 10 }, { object: 14 }, { arrow: 12, functionExpr: 8 }, { for: 14, switch: 8, try: 8 }, { assign: 12, array: 8 }, { string: 12, regex: 6 }];
// A key that one object of a JSON text has twice, or null
function twice(s) {
  const re = /"(?:[^"\\]|\\.)*"|[{}[\],:]/g, st = []; let m, last = null;
  while ((m = re.exec(s))) {
    const t = m[0];
    if (t === '{') st.push(new Set()); else if (t === '[') st.push(null); else if (t === '}' || t === ']') st.pop();
    else if (t === ':') { const k = st[st.length - 1]; if (k.has(last)) return last; k.add(last); }
    else if (t[0] === '"') last = t;
  }
  return null;
}
module.exports = {
  text: 'src',
  scale: 'all', scaleAs: c => ({ src: c.src, goal: c.goal }),
  plan(tier) {
    const m = tier === 'thorough' ? 12 : 1;
    const prog = d => { const goal = d.int(3) ? 'script' : 'module', g = new Gen(d, { goal, fuel: 4 + d.int(40), w: d.pick(TILT) }); return { ts: g.program(1, 3), goal }; };
    return [
      { name: 'programs', cases: 130000 * m, gen(d) { const { ts, goal } = prog(d); return { src: render(ts, d.pick(modes), d), goal }; } },
      { name: 'edited tokens', cases: 130000 * m, gen(d) { const { ts, goal } = prog(d); return { src: render(mutateTokens(d, ts, d.pick([1, 1, 2])), d.pick(modes), d), goal }; } },
      { name: 'edited characters', cases: 60000 * m, gen(d) { const { ts, goal } = prog(d); return { src: mutateText(d, render(ts, d.pick(modes), d), 2), goal }; } },
      { name: 'programs under the other goal', cases: 30000 * m, gen(d) { const { ts, goal } = prog(d); return { src: render(ts, d.pick(modes), d), goal: goal === 'script' ? 'module' : 'script' }; } },
      { name: 'real code, some edited', cases: 40000 * m, gen(d) { const C = corpus().stmts; if (!C.length) return null; const s = d.list(1, 3, () => d.pick(C)).join('\n').replace(/[\ud800-\udfff]/g, 'u'); return { src: d.int(2) ? s : mutateText(d, s, 1), goal: d.int(3) ? 'script' : 'module' }; } },
    ];
  },
  check(c, ctx) {
    const q = ctx.g.parse(c.src, c.goal); ctx.kind = false;
    const x = bad(q); if (x) return x; if (q.k !== 'ok') return null;
    ctx.kind = q.ast.body && q.ast.body.length > 0; ctx.count('accepted');
    if (q.ast.type !== 'Program') return { sig: 'root', msg: 'the root is not a Program' };
    if (q.ast.sourceType !== c.goal) return { sig: 'sourceType', msg: `sourceType ${q.ast.sourceType} for the ${c.goal} goal` };
    const e = E.validate(q.ast);
    if (e) return { sig: 'schema:' + e.replace(/^[^:]*: /, ''), msg: e };
    const tw = twice(ctx.g.text); if (tw) return { sig: 'twice:' + tw, msg: `an object of the JSON has the key ${tw} twice` };
    // relations that reach over more than one node
    let fail = null;
    const f = (sig, msg) => { if (!fail) fail = { sig, msg }; };
    E.walk(q.ast, (n, up, key) => {
      if (/^(Import|Export)\w*Declaration$/.test(n.type) && (c.goal !== 'module' || up.type !== 'Program')) f('module item', `${n.type} in ${up.type} of a ${c.goal}`);
      if (n.type === 'ExpressionStatement' && n.directive !== undefined && !(up.type === 'Program' || up.type === 'BlockStatement')) f('directive place', `directive in ${up.type}`);
      if ((n.type === 'FunctionDeclaration' || n.type === 'ClassDeclaration') && n.id === null && up.type !== 'ExportDefaultDeclaration') f('anonymous declaration', `${n.type} without a name in ${up.type}`);
      if (n.type === 'VariableDeclaration' && /^For(In|Of)Statement$/.test(up.type) && key === 'left' && n.declarations.length !== 1) f('for head', `${n.declarations.length} declarations in ${up.type}`);
      if (n.type === 'MethodDefinition' && n.kind === 'constructor' && (n.static || n.computed || n.value.generator || n.value.async)) f('constructor', 'a constructor that is static, computed, a generator or async');
      if (n.type === 'RestElement') { const L = up.params || up.elements || up.properties; if (L && L[L.length - 1] !== n) f('rest', `RestElement that is not the last of its ${up.type}`); }
      if (n.type === 'MetaProperty' && (n.meta.name !== 'new' || n.property.name !== 'target')) f('meta', `${n.meta.name}.${n.property.name}`);
      if (n.type === 'Property' && (n.kind === 'get' || n.kind === 'set') && n.value.params.length !== (n.kind === 'set' ? 1 : 0)) f('accessor', `${n.kind} with ${n.value.params.length} parameters`);
      if (n.type === 'MethodDefinition' && (n.kind === 'get' || n.kind === 'set') && n.value.params.length !== (n.kind === 'set' ? 1 : 0)) f('accessor', `${n.kind} with ${n.value.params.length} parameters`);
      if (n.type === 'BreakStatement' || n.type === 'ContinueStatement' || n.type === 'LabeledStatement') { const l = n.label; if (l && !l.name) f('label', 'empty label'); }
      if (n.type === 'Identifier' && n.name === '') f('name', 'identifier with an empty name');
      if (n.type === 'Property' && up.type === 'ObjectPattern' && (n.kind !== 'init' || n.method || /Expression$/.test(n.value.type) && n.value.type !== 'MemberExpression')) f('pattern property', `${n.kind} ${n.value.type} in an ObjectPattern`);
      if (n.type === 'Property' && up.type === 'ObjectExpression' && /Pattern$/.test(n.value.type)) f('object property', `${n.value.type} in an ObjectExpression`);
      if (n.type === 'Literal' && typeof n.value === 'number' && (!(n.value >= 0) || !Number.isFinite(n.value))) f('number', `literal ${n.value}`);
    });
    return fail;
  },
  nontrivial: (c, ctx) => ctx.kind,
  rule: 'Generated programs tilted to every family of constructs, edited ones, programs parsed under the other goal and real code: whatever is accepted must be one object that conforms to the ESTree table (estree.js: types, exact field sets, kinds of values, permitted child types, relations between fields) with the right sourceType. Non-trivial: accepted, with a non-empty body.',
};
