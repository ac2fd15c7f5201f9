'use strict';
// Shared shape of the checks that compare giron's tree with the reference tree (C06-C10).
const { Gen, render, SEMI } = require('../gen.js');
const { mutateTokens } = require('../mutate.js');
const { differential } = require('../common.js');
const { split, layout } = require('../asi.js');
const forms = require('../forms.js');
const modes = ['space', 'tight', 'wild', 'asi'];
// 'asi': some or all of the semicolons that a line break or a brace can stand for are left out
const draw = (ts, mode, d) => mode === 'asi' ? layout(d, split(ts), d.pick([100, 60]), d.pick([0, 0, 15]))[0] : render(ts, mode, d);
module.exports = function (o) {
  const goalOf = o.goal || (d => d.int(4) === 0 ? 'module' : 'script');
  const build = d => { const goal = goalOf(d); const g = new Gen(d, { goal, fuel: (o.fuel || 5) + d.int(o.fuelMax || 40), w: d.chance(70) ? o.w : {} }); const ts = o.program ? o.program(g, d) : g.program(1, 3); return { ts, goal }; };
  return {
    text: 'src', scale: o.scale,
    plan(tier) {
      const m = tier === 'thorough' ? 14 : 1;
      return [
        { name: 'programs', cases: (o.programs || 130000) * m, gen(d) { const { ts, goal } = build(d); return { src: draw(ts, d.pick(modes), d), goal }; } },
        { name: 'near misses', cases: (o.mutants || 60000) * m, gen(d) { const { ts, goal } = build(d); return { src: render(mutateTokens(d, ts, 2), d.pick(modes), d), goal }; } },
        ...forms.phases(tier, o.forms || o.interesting, o.formsK || 4),
        ...(o.more ? o.more(m, tier) : []),
      ];
    },
    check: (c, ctx) => { const f = differential(c, ctx); ctx.kind = ctx.last === 'ok' && o.interesting.test(c.src); if (ctx.kind) ctx.count('with the constructs in question'); return f; },
    nontrivial: (c, ctx) => ctx.kind,
    rule: o.rule,
    assumptions: ['Reference: acorn 8.19 at ecmaVersion 2019; a disagreement counts only if Babel does not side with giron. Early errors giron documents as not implemented are excluded (ref.js).'],
  };
};
