'use strict';
const ctxgrid = require('../ctxgrid.js');
const SPEC = ['a', 'a as b', 'default', 'default as a', 'if as a', 'a as if', 'as', 'as as as', 'as as b', 'a as default', 'from', 'let', 'yield', 'await', 'static', 'a as await', 'await as a', 'async', 'eval', 'a as eval', 'a as arguments', 'arguments', 'class', 'a b', 'a as', '* as a', '"a"', '"a" as b', '1', '\\u0061', '\\u0061 as b', 'a \\u0061s b', 'd\\u0065fault as q', 'é', 'a as é', 'true', 'null', 'enum', 'a.b', '[a]', '{a}', '...a', 'type', 'of as get', 'a=1', ''];
const lst = d => { const n = d.int(4); let s = '{'; for (let i = 0; i < n; i++) { s += d.chance(60) ? d.pick(['a', 'b as c', 'd', 'e as default', 'f as g', 'if as h']) : d.pick(SPEC); if (i < n - 1 || d.chance(15)) s += d.chance(4) ? ';' : ','; } return s + '}'; };
const STR = ["'m'", '"m"', "'m'", '"m\\n"', "''", 'm', '`m`', '1', '("m")', '"use strict"'];
const END = [';', ';', '\n', '', ' ', ' a', ';;'];
const id = d => d.pick(['a', 'b', 'as', 'from', 'of', 'async', 'get', 'let', 'yield', 'await', 'if', 'default', 'eval', 'é', '\\u0061', 'static', 'type', 'm', '*', '{}']);
function imp(d) {
  const k = d.int(12), from = () => (d.chance(96) ? ' from ' : d.pick([' fr\\u006fm ', ' ', ' form ', ' from from '])) + d.pick(STR);
  switch (k) {
    case 0: return 'import ' + d.pick(STR);
    case 1: return 'import ' + id(d) + from();
    case 2: return 'import * as ' + id(d) + from();
    case 3: return 'import' + lst(d) + from();
    case 4: return 'import ' + id(d) + ',* as ' + id(d) + from();
    case 5: return 'import ' + id(d) + ',' + lst(d) + from();
    case 6: return 'import' + lst(d) + ',' + id(d) + from();
    case 7: return d.pick(['import', 'import(a)', 'import.meta', 'import * from "m"', 'import a,b from "m"', 'import * as a,{b} from "m"', 'import a, from "m"', 'import {a}', 'import a', 'import from', 'import {} from "m"', 'import{}from"m"', 'import*as a from"m"', 'import a,*as b from"m"', 'import "m" from "n"', 'import from from "m"', 'import as from "m"', 'import * as as from "m"', 'import{as as from}from"m"', 'import {a}from "m" import "b"']);
    default: return 'import ' + lst(d) + from();
  }
}
function exp(d) {
  const k = d.int(14), decl = ['var a', 'var a=1,b', 'let a', 'let a=1', 'const a=1', 'const {a,b:[c]}=d', 'function a(){}', 'function*a(){}', 'async function a(){}', 'async function*a(){}', 'class a{}', 'class a extends b{}', 'async a=>1', 'function(){}', 'class{}', 'a', 'a=1', 'if(a);', '{a:1}', 'async\nfunction a(){}', 'let\na', 'var {a}', 'let [a]', 'import "m"', 'export a', 'async', 'yield', 'await', 'this', 'enum a{}', 'var let', 'const let=1'];
  const defs = [...decl, 'async function(){}', 'async function*(){}', 'function*(){}', 'a,b', '(a,b)', 'a\nb', '{}', '{a}', '[]', 'a=>1', '()=>{}', 'async()=>1', '1', '"s"', 'function(){}()', '(function(){})()', 'class{}.a', 'default', 'from', 'class extends a{}', 'new a', 'typeof a', 'yield', 'await a', 'a in b', 'async (a)', 'async.a', 'function(){}/a/g', 'class{}/a/g', '', ';', 'let', 'null', '`a`', 'var a'];
  switch (k) {
    case 0: return 'export * from ' + d.pick(STR);
    case 1: case 2: return 'export ' + lst(d);
    case 3: case 4: return 'export ' + lst(d) + ' from ' + d.pick(STR);
    case 5: case 6: case 7: return 'export ' + d.pick(decl);
    case 8: case 9: case 10: case 11: return 'export default ' + d.pick(defs);
    case 12: return d.pick(['export', 'export *', 'export * as a from "m"', 'export a', 'export {a', 'export default', 'export {a} fr\\u006fm "m"', 'export d\\u0065fault 1', 'export * from a', 'export from "m"', 'export{}', 'export{}from"m"', 'export*from"m"', 'export default from "m"', 'export {a},{b}', 'export {default}', 'export {if}', 'export {if} from "m"', 'export {default as a} from "m"', 'export {a as default}', 'export {a as if}', 'export default async', 'export default async()', 'export default async a', 'export default async a=>a', 'export default async function(){}/a/']);
    default: return 'export ' + d.pick(decl);
  }
}
const WRAP = [x => x, x => x, x => x, x => x, x => `{${x}}`, x => `if(a){${x}}`, x => `function f(){${x}}`, x => `()=>{${x}}`, x => `for(;;){${x}}`, x => `a:${x}`, x => `if(a)${x}`, x => `(${x})`, x => `class A{m(){${x}}}`, x => `switch(a){case 1:${x}}`, x => `try{${x}}finally{}`, x => `"use strict";${x}`, x => `a;${x}`, x => `${x} var a,b,d,f;`, x => `a\n${x}`];
const fix = s => { // declare what export lists name, so that undeclared exports do not hide the rest
  const names = new Set(); for (const m of s.matchAll(/export\s*\{([^}]*)\}(?!\s*from)/g)) for (const p of m[1].split(',')) { const w = p.trim().split(/\s+/)[0]; if (/^[a-z]$/.test(w)) names.add(w); }
  for (const n of [...names]) if (new RegExp(`(var|let|const|function|class|import|,|\\*|as) ?${n}\\b`).test(s)) names.delete(n);
  return names.size ? s + '\nvar ' + [...names].join() + ';' : s;
};
module.exports = require('./_tree.js')({
  scale: ['imports', 'exports', 'moduleItems'],
  goal: d => d.int(8) === 0 ? 'script' : 'module',
  w: { import: 12, export: 18, moduleStmt: 3, exotic: 14, leaf: 60 }, fuelMax: 30,
  programs: 90000, mutants: 50000,
  interesting: /\b(import|export)\b/, formsK: 12,
  more: (m, tier) => [...ctxgrid.phases(tier, /port/, 0), {
    name: 'declaration forms', cases: 140000 * m,
    gen(d) {
      const n = d.weigh([[5, 1], [3, 2], [1, 3]]); let s = '';
      for (let i = 0; i < n; i++) s += (d.int(2) ? imp(d) : exp(d)) + (i < n - 1 ? d.pick([';', '\n', ';\n']) : d.pick(END));
      s = d.pick(WRAP)(s); if (d.chance(80)) s = fix(s);
      return { src: s, goal: d.chance(12) ? 'script' : 'module' };
    },
  }],
  rule: 'Modules rich in import/export declarations (plus mutated ones and the same text as scripts), and import/export forms assembled from tables of valid and invalid clauses, names, sources and surroundings, compared node by node with the reference tree or verdict. Non-trivial: accepted and containing an import or export.',
});
