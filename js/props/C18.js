'use strict';
const { Gen, render } = require('../gen.js');
const { mutateTokens } = require('../mutate.js');
const { bad, ref, E } = require('../common.js');
const { corpus } = require('../corpus.js');
const { readDebug } = require('../dbg.js');
const modes = ['space', 'tight', 'wild'];
const SKIP = new Set(['type', 'start', 'end', 'loc', 'value', 'raw', 'regex']);
// code-point offset -> {line, col} by the ECMAScript line terminators; and UTF-16 offset -> code-point offset
function positions(src) {
  const cs = Array.from(src), at = [], cp = new Uint32Array(src.length + 1); let line = 1, col = 1, u = 0;
  for (let i = 0; i < cs.length; i++) {
    at.push([line, col]); for (let k = 0; k < cs[i].length; k++) cp[u++] = i;
    const c = cs[i];
    if (c === '\n' || c === '\u2028' || c === '\u2029' || (c === '\r' && cs[i + 1] !== '\n')) { line++; col = 1; } else col++;
  }
  at.push([line, col]); cp[u] = cs.length;
  return { cs, at, cp };
}
const ALIAS = { BindingIdentifier: 'Identifier', ComputedMemberExpression: 'MemberExpression', StaticMemberExpression: 'MemberExpression', Directive: 'ExpressionStatement', RegexLiteral: 'Literal', AsyncArrowFunctionExpression: 'ArrowFunctionExpression', ArrayAssignmentPattern: 'ArrayPattern' };
const NAME = n => ALIAS[n.$] || n.$;
module.exports = {
  text: 'src',
  scale: 'all', scaleAs: c => ({ src: c.src, goal: c.goal }), scaleK: 0.6,
  plan(tier) {
    const m = tier === 'thorough' ? 12 : 1;
    const prog = (d, w) => { const goal = d.int(4) ? 'script' : 'module', g = new Gen(d, { goal, fuel: 4 + d.int(35), w: w || {} }); return { ts: g.program(1, 3), goal }; };
    const around = d => [d.list(0, 2, () => d.pick([' ', '\n', '\r\n', '/*é*/', '//😀\u2028', '\t', '/*\n*/', '\ufeff'])).join(''), d.list(0, 2, () => d.pick([' ', '\n', '/*a*/', '//b', ';', '\r'])).join('')];
    const mk = (src, goal, d) => { const [a, b] = around(d); return /<!--|-->/.test(src) ? null : { src: a + src + b, goal }; };
    return [
      { name: 'programs', cases: 90000 * m, gen(d) { const { ts, goal } = prog(d); return mk(render(ts, d.pick(modes), d), goal, d); } },
      { name: 'literals and templates', cases: 40000 * m, gen(d) { const { ts, goal } = prog(d, { template: 12, tagged: 6, regex: 6, string: 10 }); return mk(render(ts, d.pick(modes), d), goal, d); } },
      { name: 'near misses', cases: 50000 * m, gen(d) { const { ts, goal } = prog(d); return mk(render(mutateTokens(d, ts, 1), d.pick(modes), d), goal, d); } },
      { name: 'real code', cases: 20000 * m, gen(d) { const C = corpus().stmts; if (!C.length) return null; return mk(d.list(1, 3, () => d.pick(C)).join('\n').replace(/[\ud800-\udfff]/g, 'u'), 'script', d); } },
    ];
  },
  check(c, ctx) {
    const { src } = c, q = ctx.g.parse(src, c.goal, { dbg: true }); ctx.kind = false;
    const x = bad(q); if (x) return x; if (q.k !== 'ok') return null;
    let tree; try { tree = readDebug(q.dbg); } catch (e) { ctx.count('the {:?} text could not be read'); return null; }
    const { cs, at, cp } = positions(src), v = ref(src, c.goal);
    const cover = v.status === 'ok' && !E.diff(E.canon(v.ast), E.canon(q.ast));
    let fail = null, spans = 0;
    const f = (sig, msg) => { if (!fail) fail = { sig, msg }; };
    const text = (s, e) => JSON.stringify(cs.slice(s, e).join('').slice(0, 60));
    // own span, span of the nearest enclosing node that has one; acorn's node for it
    const rec = (n, up, a) => {
      if (Array.isArray(n)) { let prev = null; n.forEach((y, i) => { if (y && typeof y === 'object') { const s = rec(y, up, Array.isArray(a) ? a[i] : null); if (s && prev && s[0] < prev[1]) f('overlap:' + NAME(y), `siblings overlap: ${text(...prev)} and ${text(...s)}`); if (s) prev = s; } }); return null; }
      if (!n || typeof n !== 'object' || n.$ === undefined || n.$ === 'str' || n.$ === 'Span' || n.$ === 'Marker') return null;
      let me = up, own = null;
      if (n.span) {
        spans++;
        const s = n.span.start, e = n.span.end, t = NAME(n); own = [s.idx, e.idx];
        if (s.idx > e.idx || e.idx > cs.length) return f('order:' + t, `${t} has the span ${s.idx}..${e.idx} in ${cs.length} characters`);
        for (const p of [s, e]) if (at[p.idx][0] !== p.line || at[p.idx][1] !== p.col) f('linecol:' + t, `${t}: offset ${p.idx} is ${at[p.idx].join(':')}, not ${p.line}:${p.col}`);
        if (up && (s.idx < up[0] || e.idx > up[1])) f('nest:' + up[2] + '>' + t, `${t} ${text(s.idx, e.idx)} is not within its ${up[2]} ${text(up[0], up[1])}`);
        if (a && a.type === t && t !== 'Program') {
          const as = cp[a.start], ae = cp[a.end];
          if (as !== s.idx) f('start:' + t, `${t} ${text(as, ae)} has the span ${text(s.idx, e.idx)}`);
          else if (ae !== e.idx) f('end:' + t, `${t} ${text(as, ae)} has the span ${text(s.idx, e.idx)}`);
        }
        else if (a && t !== 'Program') ctx.count('other type ' + t);
        if (a && t === 'Program' && a.body.length && (cp[a.body[0].start] !== s.idx || cp[a.body[a.body.length - 1].end] !== e.idx)) f('program', `the program has the span ${text(s.idx, e.idx)}`);
        me = [s.idx, e.idx, t];
      }
      for (const k of Object.keys(n)) { if (k === '$' || k === 'span' || SKIP.has(k) && k !== 'value') continue; rec(n[k], me, a && a[k]); }
      return own;
    };
    rec(tree, null, cover ? v.ast : null);
    ctx.kind = spans > 1; if (cover) ctx.count('compared with the reference');
    return fail;
  },
  nontrivial: (c, ctx) => ctx.kind,
  rule: 'Accepted generated, mutated and real programs in random layouts with multi-line, CRLF, LS/PS and astral text. Every span (read from the {:?} text of the tree) must lie in the source, agree with its line and column, lie within the enclosing span and not overlap its siblings, and equal the reference parser\'s span of the same node. Non-trivial: accepted, with more than one span.',
};
