'use strict';
const { Gen, render } = require('../gen.js');
const { PLAIN } = require('../gen.js');
// yield/await/async as operators or names at the bottom of a chain of functions of every kind
const WRAP = [
  [x => `function f(){${x}}`, 's'], [x => `function*f(){${x}}`, 's'], [x => `async function f(){${x}}`, 's'], [x => `async function*f(){${x}}`, 's'],
  [x => `(function(){${x}});`, 's'], [x => `(function*(){${x}});`, 's'], [x => `(async function(){${x}});`, 's'], [x => `(async function*(){${x}});`, 's'],
  [x => `(()=>{${x}});`, 's'], [x => `(async()=>{${x}});`, 's'], [x => `(async a=>{${x}});`, 's'], [x => `(a=>{${x}});`, 's'],
  [x => `({m(){${x}}});`, 's'], [x => `({*m(){${x}}});`, 's'], [x => `({async m(){${x}}});`, 's'], [x => `({async*m(){${x}}});`, 's'], [x => `({get m(){${x}}});`, 's'], [x => `({set m(a){${x}}});`, 's'],
  [x => `class A{m(){${x}}}`, 's'], [x => `class A{*m(){${x}}}`, 's'], [x => `class A{async m(){${x}}}`, 's'], [x => `class A{static async*m(){${x}}}`, 's'],
  [x => `{${x}}`, 's'], [x => `if(a){${x}}`, 's'], [x => `for(;;){${x}}`, 's'],
];
const EWRAP = [ // an expression in a place of its own
  x => `${x};`, x => `(${x});`, x => `a=${x};`, x => `f(${x});`, x => `[${x}];`, x => `\`\${${x}}\`;`, x => `a?${x}:b;`, x => `({a:${x}});`, x => `({[${x}]:a});`, x => `var a=${x};`, x => `return ${x};`, x => `throw ${x};`,
  x => `!${x};`, x => `a+${x};`, x => `${x}+a;`, x => `${x}.b;`, x => `${x}[0];`, x => `${x}(0);`, x => `if(${x});`, x => `for(${x};${x};${x});`, x => `for(a of ${x});`, x => `for(a in ${x});`, x => `(${x},${x});`, x => `a**${x};`, x => `${x}**a;`,
  x => `()=>${x};`, x => `async()=>${x};`, x => `(a=${x})=>1;`, x => `async(a=${x})=>1;`, x => `function g(a=${x}){}`, x => `function*g(a=${x}){}`, x => `async function g(a=${x}){}`, x => `({m(a=${x}){}});`, x => `({async m(a=${x}){}});`, x => `({*m(a=${x}){}});`,
  x => `class B extends ${x}{}`, x => `class B{[${x}](){}}`, x => `[a=${x}]=b;`, x => `({a=${x}}=b);`, x => `var [a=${x}]=b;`, x => `var {a=${x}}=b;`, x => `new ${x};`, x => `typeof ${x};`, x => `...${x}`, x => `f(...${x});`, x => `[...${x}];`, x => `switch(${x}){case ${x}:}`, x => `do;while(${x})`, x => `${x}\`\`;`, x => `a${x}`, x => `x=>{${x}}`, x => `async x=>${x};`,
];
const OPS = ['yield', 'yield a', 'yield*a', 'yield\na', 'yield\n*a', 'yield[a]', 'yield(a)', 'yield/a/g', 'yield\n/a/g', 'yield{}', 'yield`a`', 'yield yield a', 'yield await a', 'yield a,b', 'yield a?b:c', 'yield=1', 'yield++', 'yield.a', 'yield+a', 'yield-a', 'yield in a', 'await', 'await a', 'await\na', 'await(a)', 'await[a]', 'await/a/g', 'await+a', 'await-a', 'await=1', 'await await a', 'await yield', 'await.a', 'await a**b', '(await a)**b', 'await{}', 'await`a`', 'await a()', 'await new a', 'await a.b', 'await in a', 'async', 'async(a)', 'async\n(a)', 'async.a', 'async=1', 'async=>1', 'async a=>a', 'async\na=>a', 'async(a)=>a', 'async(a)\n=>a', 'async()=>{}', 'async function(){}', 'async\nfunction(){}', 'async function*(){}', 'async(a,...b)=>1', 'async(...a,b)=>1', 'async(a,)=>1', 'async(a)(b)', 'async(a).b', 'async({a=1})=>1', 'async({a=1})', 'async(a=await b)=>1', 'async(await)=>1', 'async await=>1', 'async yield=>1', '(await)=>1', '(yield)=>1', 'await=>1', 'yield=>1', '(a,b)=>1', '(a,...b)=>1', '(a,)=>1', '(...a)=>1', '(...a,)=>1', '()=>1', '()', '(a)\n=>1', 'a=>{}', 'a=>({})', 'a=>{}()', 'a=>{}.b', 'a=>b=>c', 'a=>b?c:d', 'a=>b,c', '((a))=>1', '([a])=>1', '({a})=>1', '({a:b=1,...c})=>1', '([a,...b])=>1', '(a.b)=>1', '(1)=>1', '(a=1)=>1', '(a+=1)=>1', '(a,(b))=>1', '(a,[b,{c}])=>1', '(this)=>1', '([a.b])=>1', '({a:b.c})=>1', 'function(){}', 'function*(){}', 'function yield(){}', 'function*yield(){}', 'function await(){}', 'async function await(){}', 'function async(){}', 'new.target', 'a=>a\n/b/g', 'a=>{}\n/b/g', 'async.b=>1', 'async a.b=>1', 'async(a,b)', 'async``', 'new async(a)', 'new async', 'async a', 'async function', 'async()', 'async(a)=1', 'async?a:b', 'async in b', 'async,async', 'async of=>1', 'async async=>async', 'async(async)=>async', 'async (x)=>{await x}', 'async x=>await x', 'async x=>x=>await x', 'x=>await x', 'x=>yield x', 'async(x=yield)=>1', '(x=yield)=>1', '(x=yield y)=>1', '(x=await y)=>1'];
module.exports = require('./_tree.js')({
  scale: ['params', 'functions', 'blocks', 'rights', 'elements', 'nests'],
  w: { function: 12, arrow: 25, functionExpr: 25, genFn: 40, asyncFn: 40, complexParams: 50, yield: 20, leaf: 20, object: 12, classExpr: 3, exotic: 14 },
  programs: 110000, mutants: 50000,
  interesting: /function|=>|\)\s*\{/,
  more: m => [{
    name: 'yield/await/async in chains of functions', cases: 120000 * m,
    gen(d) {
      let s = d.pick(EWRAP)(d.pick(OPS));
      const n = d.weigh([[2, 1], [3, 2], [2, 3], [1, 0], [1, 4]]);
      for (let i = 0; i < n; i++) s = d.pick(WRAP)[0](s);
      if (d.chance(8)) s = '"use strict";' + s;
      return { src: s, goal: d.chance(12) ? 'module' : 'script' };
    },
  }],
  rule: 'Programs rich in functions, arrows, generators and async functions with simple and complex parameter lists (plus mutated ones), and ~150 yield/await/async/arrow forms in ~50 expression places inside chains of up to 4 functions of 25 kinds, compared node by node with the reference tree or verdict. Non-trivial: accepted and containing a function.',
});
