'use strict';
// every combination of modifiers, key and tail, in classes and objects
const MOD = ['', 'get ', 'set ', 'async ', '*', 'async*', 'async *', 'static ', 'static get ', 'static set ', 'static async ', 'static *', 'static async*', 'static static ', 'get set ', 'async get ', 'get\n', 'async\n', 'static\n', '* get ', 'async static ', 'g\\u0065t ', 'st\\u0061tic ', '\\u0061sync '];
const KEY = ['a', 'get', 'set', 'static', 'async', 'await', 'yield', 'let', 'of', 'if', 'class', 'constructor', 'prototype', '"a"', "'constructor'", '1', '0x1F', '.5', '[a]', '["a"]', '[a,b]', '[a in b]', 'é', '\\u0061', 'n\\u0065w', 'true', 'null', 'eval', 'arguments', '__proto__', 'super', 'this', '``', '/a/', '(a)', '*', '', '[...a]', '[]', 'enum', 'implements'];
const TAIL = ['(){}', '(a){}', '(a,b){}', '(...a){}', '({a}){}', '([a]=[]){}', '(a=1){}', '(){super.a}', '(){super()}', '(){new.target}', '(){yield}', '(){await}', '(){yield a}', '(){await a}', '(){return super.a()}', '(){()=>super.a}', '(){function f(){super.a}}', '(){"use strict";with(a);}', '(a){}', '(a,){}', '(,){}', '()', '{}', ':1', ':a', '=1', '', ':function(){}', ':[a]', ':{a}', '(){}.b', '(){},', '(){};', '(){super[a]=1}', '(){super[a]++}', '(){delete super.a}', '(){super}', '(){new super}', '(){new super.a}', '(){super`a`}', '(){super.a`b`}', '(){super.a.b(c)[d]}', '(a=super.b){}', '(a=super()){}', '(a=new.target){}', '(){new.target.a}', '(){new new.target(a)}', '(){({a=super.b}=c)}'];
const SEP = ['', ';', ',', ';;', '\n', ' '];
const PLACE = [x => `class A{${x}}`, x => `(class{${x}});`, x => `class A extends B{${x}}`, x => `(class extends B.c{${x}});`, x => `({${x}});`, x => `({${x}})`, x => `a={${x}};`, x => `f({${x}},1);`, x => `class A extends B{constructor(){super();}${x}}`, x => `({${x},b})`, x => `({b,${x}})`, x => `class A{static a(){}${x}b(){}}`, x => `({${x}}=a)`, x => `({${x}})=>1`, x => `var {${x}}=a;`, x => `class A extends (a,b){${x}}`, x => `class A extends a\`\`{${x}}`, x => `class A extends class{}{${x}}`, x => `class A extends{${x}}{}`, x => `new class{${x}}`, x => `new class{${x}}(1).a`, x => `class let{${x}}`, x => `class{${x}}`, x => `export default class{${x}}`];
module.exports = require('./_tree.js')({
  scale: ['properties', 'methods', 'members', 'nests', 'blocks'],
  w: { class: 16, classExpr: 25, object: 45, exotic: 14, leaf: 18, exprStmt: 16, complexParams: 20 },
  programs: 110000, mutants: 50000,
  interesting: /class|\{[^}]*[:,(]/,
  more: m => [{
    name: 'modifier x key x tail', cases: 120000 * m,
    gen(d) {
      const n = d.weigh([[6, 1], [3, 2], [1, 3]]); let s = '';
      const place = d.pick(PLACE);
      const obj = /^\(?\{|[=(]\{/.test(place(''));
      for (let i = 0; i < n; i++) { s += d.pick(MOD) + d.pick(KEY) + d.pick(TAIL); if (i < n - 1) s += obj ? ',' : d.pick(SEP); }
      let src = place(s);
      if (d.chance(8)) src = `function*g(){${src}}`; else if (d.chance(8)) src = `async function g(){${src}}`; else if (d.chance(6)) src = `class Z extends Y{constructor(){${src}}}`;
      return { src, goal: /^export/.test(src) || d.chance(6) ? 'module' : 'script' };
    },
  }],
  rule: 'Programs rich in classes and object literals (plus mutated ones), and members built from ~24 modifiers x ~40 keys x ~45 tails in ~24 places, compared node by node with the reference tree or verdict. Non-trivial: accepted and containing a class or an object with members.',
});
