'use strict';
const { Gen, render } = require('../gen.js');
// One cover text (array/object literal that may or may not be a pattern) in every kind of place.
class Cover {
  constructor(d) { this.d = d; this.f = 8; }
  leaf() { const d = this.d; return d.weigh([[12, d.pick(['a', 'b', 'c', 'x', 'y'])], [3, d.pick(['a.b', 'a[b]', 'a().b', 'this.a', 'a.b.c', '(a).b', '[].a', '({}).a', '{}.a'])], [2, d.pick(['(a)', '((a))', '(a.b)', '([a])', '({a})', '(a=1)', '(a,b)'])], [2, d.pick(['a()', '1', '"s"', 'this', 'a+b', '!a', 'a++', '`t`', 'a?b:c', 'a=>1', 'function(){}', 'new a', 'async a=>1', 'null', '/r/', 'class{}', 'yield', 'await', 'let', 'eval', 'arguments', 'new.target', 'a=b=c'])]]); }
  elem() { const d = this.d; let s = this.f-- > 0 && d.chance(40) ? (d.int(2) ? this.arr() : this.obj()) : this.leaf(); if (d.chance(25)) s += d.pick(['=', '=', '=', '+=']) + (d.chance(20) ? (d.int(2) ? this.arr() : this.obj()) : d.pick(['1', 'a', 'b in c', 'a=>1', '{a=1}'])); if (d.chance(4)) s = '(' + s + ')'; return s; }
  arr() { const d = this.d, n = d.int(4); let s = '['; for (let i = 0; i < n; i++) { if (d.chance(12)) { s += ','; continue; } if (d.chance(i === n - 1 ? 25 : 5)) s += '...'; s += this.elem(); if (i < n - 1 || d.chance(12)) s += ','; } return s + ']'; }
  key() { const d = this.d; return d.weigh([[6, d.pick(['a', 'b', 'get', 'set', 'async', 'if', 'let', 'yield', 'await', '__proto__', 'eval'])], [2, d.pick(['"a"', '1', '[a]', '[a,b]', '[{a=1}]', '[a=1]', '\\u0061'])]]); }
  obj() {
    const d = this.d, n = d.int(4); let s = '{';
    for (let i = 0; i < n; i++) {
      const k = d.int(12);
      if (k < 4) s += this.key() + ':' + this.elem();
      else if (k < 7) s += d.pick(['a', 'b', 'c', 'get', 'set', 'async', 'of', 'if', 'yield', 'await', 'let', 'eval', 'x', 'y']) + (d.chance(45) ? '=' + d.pick(['1', 'a', 'b in c', 'a=>1', '{}', '[a]']) : '');
      else if (k < 9) s += '...' + (d.chance(25) ? this.elem() : this.leaf());
      else if (k === 9) s += d.pick(['a(){}', 'get a(){}', 'set a(b){}', 'async a(){}', '*a(){}', 'get', 'set', 'async', 'get:a', 'async:a', 'get=1', 'async=1', 'a:b=1', 'a:(b)=1', 'a:(b=1)', '(a)', '"a"', '1', '[a]', 'a.b', '...(a)', '...[a]', '...{a}', '...a.b', '...a=1']);
      else s += this.key() + ':' + this.leaf();
      if (i < n - 1 || d.chance(12)) s += ',';
    }
    return s + '}';
  }
}
const PLACE = [
  x => `(${x});`, x => `(${x}=z);`, x => `a=${x};`, x => `a=${x}=z;`, x => `(${x})=z;`, x => `(${x})=>1;`, x => `(${x},b)=>1;`, x => `(b,...${x})=>1;`, x => `(${x}=z)=>1;`, x => `async(${x})=>1;`, x => `async(${x}=z)=>1;`, x => `async(${x});`, x => `f(${x});`, x => `f(${x}=z);`, x => `[${x}];`, x => `[${x}]=z;`, x => `({a:${x}});`, x => `({a:${x}}=z);`, x => `[...${x}]=z;`, x => `({...${x}}=z);`,
  x => `var ${x}=z;`, x => `let ${x}=z;`, x => `const ${x}=z;`, x => `var ${x};`, x => `var a,${x}=z,b;`, x => `function f(${x}){}`, x => `function f(a,${x}=z){}`, x => `function f(...${x}){}`, x => `({m(${x}){}});`, x => `({set a(${x}){}});`, x => `class A{m(${x}){}}`, x => `try{}catch(${x}){}`, x => `for(${x} of z);`, x => `for(${x} in z);`, x => `for(${x};;);`, x => `for(${x}=z;;);`, x => `for(var ${x} of z);`, x => `for(let ${x} in z);`, x => `for(const ${x} of z);`, x => `for(var ${x}=z;;);`, x => `for((${x}) of z);`, x => `for([${x}] of z);`, x => `async function f(){for await(${x} of z);}`,
  x => `a?${x}:b;`, x => `a?(${x}=1):b;`, x => `(${x}).a=1;`, x => `(${x})++;`, x => `(${x}+=1);`, x => `!${x};`, x => `(a,${x});`, x => `(a,${x}=1);`, x => `(a,${x}=1)=>2;`, x => `\`\${${x}}\`;`, x => `\`\${${x}=z}\`;`, x => `(${x}.a=1);`, x => `(${x}[0]);`, x => `(${x}==1);`, x => `(${x}=>1);`, x => `return ${x};`, x => `throw ${x};`, x => `new ${x};`, x => `if(${x}=z);`, x => `while(${x});`, x => `function*g(){yield ${x}=z;}`, x => `function*g(){[yield,${x}]=z;}`, x => `async function g(){await ${x};}`, x => `async function g(){[await a,${x}]=z;}`, x => `"use strict";(${x}=z);`, x => `"use strict";(${x})=>1;`, x => `(a=${x})=>1;`, x => `(a=${x}=z)=>1;`, x => `({a=${x}})=>1;`, x => `({a=${x}});`, x => `({a=${x}}=z);`, x => `[a=${x}]=z;`, x => `function f(a=${x}){}`, x => `class A extends ${x}{}`, x => `({[${x}]:a}=z);`, x => `export default ${x};`, x => `export const ${x}=z;`, x => `delete ${x};`, x => `(${x}?1:2);`, x => `(${x}||1);`, x => `(${x}())`, x => `(${x}\`\`)`, x => `(${x}\n=z)`, x => `async ${x}=>1`, x => `async(a,...${x})=>1`, x => `((${x}))=>1`, x => `((${x}=z))=>1`, x => `({m(){${x}=z}})`, x => `()=>${x}=z`, x => `()=>(${x}=z)`, x => `x=>${x}`, x => `(${x}\n)=>1`, x => `(${x})\n=>1`,
];
module.exports = require('./_tree.js')({
  scale: ['bindings', 'patternProps', 'params', 'nests'],
  w: { asgPattern: 70, declPattern: 70, assignment: 30, complexParams: 70, var: 16, lexical: 12, for: 12, arrow: 16, leaf: 20 },
  programs: 90000, mutants: 40000,
  interesting: /[[{].*[\]}]/s,
  more: m => [{
    name: 'cover text x place', cases: 160000 * m,
    gen(d) {
      const c = new Cover(d), x = d.int(2) ? c.arr() : c.obj(); let src = d.pick(PLACE)(x);
      if (d.chance(10)) src = `function*G(){${src}}`; else if (d.chance(10)) src = `async function G(){${src}}`;
      return { src, goal: /^export/.test(src) || d.chance(6) ? 'module' : 'script' };
    },
  }],
  rule: 'Programs rich in destructuring (plus mutated ones), and random array/object cover texts (some valid only as pattern, only as expression, or neither) put in ~95 places, compared node by node with the reference tree or verdict. Non-trivial: accepted and containing brackets or braces.',
});
