'use strict';
// Grids of small forms: every kind of expression in every kind of place, every kind of statement in
// every kind of body, every pair of expressions around every operator, and forms that no text may contain.
const { Gen, render } = require('./gen.js');
const FORBIDDEN = require('./forbidden.js');
const EXPRS = ['a', '1', '"s"', 'null', 'true', 'this', '/r/g', '`t`', '`a${b}c`', 'a`t`', '[]', '[a,,...b]', '[a=1]', '[,]', '{}', '{a}', '{a:b,c(){}}', '{a=1}', '{...a}', '{get a(){},set b(c){}}', '{async a(){},*b(){},async*c(){}}', '{"a":1,1:b,[c]:d}',
  'function(){}', 'function f(a,b=1){}', 'function(...a){}', 'function*(){}', 'function*g(){yield;yield a;yield*b}', 'async function(){}', 'async function*(){}', 'async function f(){await b}', 'function(){return}', 'function(){"use strict";a}', 'class{}', 'class A extends B{}', 'class{constructor(){}static a(){}get b(){}}', 'class A extends B{constructor(){super()}m(){super.a}}',
  'a.b', 'a.if', 'a[b]', 'a[b,c]', 'a(b)', 'a()()', 'a(...b)', 'a(b,c,)', 'a().b[c]`t`', 'new a', 'new a(b)', 'new a.b()', 'new new a()()', 'new a().b', 'new(a())', 'new.target', 'super.a', 'super(a)', 'super[a]()', 'super', 'a++', 'a.b--', '++a', '--a[b]', '-a', '+ +a', '!a', '!!a', '~a', 'typeof a', 'void 0', 'delete a.b', 'typeof typeof a', '- -a', 'await a', 'await', 'await(a)', 'yield', 'yield a', 'yield*a', 'yield/a/g',
  'a+b', 'a*b+c', 'a-b-c', 'a**b', 'a**b**c', '(-a)**b', '-a**b', 'a in b', 'a instanceof b', 'a&&b||c', 'a||b&&c', 'a|b^c&d', 'a<b==c', 'a<<b>>>c', 'a?b:c', 'a?b:c?d:e', 'a=b', 'a=b=c', 'a+=b', 'a>>>=b', 'a**=b', 'a.b=c', '[a]=b', '{a}=b', '[a=1,...b]=c', '{a:b=1,...c}=d', '(a)=b', '(a,b)', '(a)', '((a))', '([a])', '({a})', '()', 'a,b', '...a',
  'a=>b', 'a=>{}', '()=>{}', '()=>a', '()=>({})', '(a,b)=>c', '({a})=>b', '([a]=[],...b)=>{}', '(a=1)=>b', 'async a=>b', 'async()=>{}', 'async(a,b)=>await c', 'async(a)', 'async', 'async()', 'async.a', 'async a', 'async function', 'a=>b=>c', 'a=>a in b',
  'let', 'let[a]', 'of', 'get', 'static', 'as', 'from', 'yield=1', 'await=1', 'eval', 'arguments', 'eval=1', 'arguments++', 'implements', 'import(a)', 'import.meta', 'if', 'enum', '', ';', 'a b', 'a.', '.a', 'a?b', '?', '=', '\\u0061', 'l\\u0065t', 'yi\\u0065ld', 'i\\u0066', 'é', '𝒳', '0x1F', '1.', '.5', '010', '08', '0b1', '1e3', '"\\01"', "'\\u{61}'", '``', '`\\01`', 'a`\\01`', '/[/]/', '/=/', '/(?:)/u', 'a\n++b', 'a\nb', 'a/b/c', 'a++/b', '{}/a/g', ')a(', '}a{', ']a['];
// ¦ is the hole
const PLACES = ['¦', '¦;', '(¦)', ';¦\n', 'a;¦;b', '{¦}', '(¦).a', '(¦)[a]', '(¦)()', '(¦)`t`', '(¦)++', '--(¦)', '(¦)=a', '(¦)+=a', '(¦)=>a', '(¦,a)=>b', '(a,¦)=>b', '(a,...¦)=>b', '(a=¦)=>b', '({a=¦})=>b', '([a=¦])=>b', '(¦\n)=>a', '(¦)\n=>a', '¦=>a', '¦=>{}', 'async ¦', 'async ¦=>a', 'async(¦)', 'async(¦)=>a', 'async(a,¦)=>b', 'async(a=¦)=>b', 'async(¦,)=>a', 'a=>¦', 'a=>(¦)', 'a=>{¦}', '()=>¦', '()=>{return ¦}', 'async()=>¦', 'async a=>{¦}', 'a=b=>¦', '(a=>¦)',
  '¦.a', '¦[a]', '¦()', '¦`t`', '¦.a=b', '¦++', '¦\n++a', '++¦', '--¦', '-¦', '!¦', 'typeof ¦', 'delete ¦', 'void ¦', 'await ¦', 'yield ¦', 'yield*¦', 'new ¦', 'new ¦()', 'new ¦.a', 'new(¦)', 'new a(¦)', 'new a[¦]', 'new new ¦', 'new a`${¦}`',
  '¦+a', 'a+¦', 'a-¦-b', '¦*a', 'a*¦', '¦**a', 'a**¦', '-¦**a', 'a in ¦', '¦ in a', '¦ instanceof a', '¦<a', 'a<¦>b', '¦&&a', 'a||¦', 'a|¦', 'a==¦', '¦?a:b', 'a?¦:b', 'a?b:¦', 'a?¦:b?c:d', 'a?b?c:¦:d', '¦=a', '¦=a=b', 'a=¦', 'a=¦=b', 'a+=¦', '¦+=a', '¦>>>=a', '¦,a', 'a,¦', 'a,¦,b', '¦/a/b', '¦\n/a/b', 'a/¦',
  '[¦]', '[,¦]', '[¦,]', '[a,¦,b]', '[...¦]', '[...¦,a]', '[¦]=a', '[,¦,]=a', '[...¦]=a', '[a,...¦]=b', '[a=¦]=b', '[¦=a]=b', '[[¦]]=a', '[{a:¦}]=b', '[¦]=>a', '[a=¦]', '[a[¦]]=b',
  '({¦})', '({¦,})', '({a,¦})', '({¦}=a)', '({¦=1}=a)', '({¦})=>a', '({a:¦})', '({a:¦}=b)', '({a:¦=1}=b)', '({a:¦})=>b', '({a:¦,b})', '({a=¦}=b)', '({a:b=¦}=c)', '({...¦})', '({...¦}=a)', '({a,...¦}=b)', '({...¦})=>a', '({[¦]:a})', '({[¦]:a}=b)', '({[¦]:a})=>b', '({[¦](){}})', '({get[¦](){}})', '({async[¦](){}})', '({*[¦](){}})', '({¦:a})', '({¦(){}})', '({get ¦(){}})', '({set ¦(a){}})', '({async ¦(){}})', '({*¦(){}})', '({async*¦(){}})', '({a(b=¦){}})', '({a(){¦}})', '({*a(){¦}})', '({async a(){¦}})', '({get a(){¦}})', '({set a(b){¦}})', '({set a(b=¦){}})', '({set a(¦){}})', '({a(¦){}})', '({*a(¦){}})', '({async a(¦){}})', '({a(){return ¦}})',
  'a(¦)', 'a(¦,)', 'a(b,¦,c)', 'a(...¦)', 'a(...¦,b)', 'a[¦]', 'a.¦', 'a.b[¦].c', 'super[¦]', 'super(¦)', '`${¦}`', '`a${b}c${¦}d`', 'a`${¦}`', '`${`${¦}`}`', '`${a}${¦', 'import(¦)',
  'var ¦', 'var ¦=1', 'var a=¦', 'var a=¦,b', 'var a,¦', 'var[¦]=a', 'var[a=¦]=b', 'var[...¦]=a', 'var{¦}=a', 'var{a:¦}=b', 'var{a=¦}=b', 'var{[¦]:a}=b', 'var{...¦}=a', 'let ¦', 'let ¦=1', 'let a=¦', 'let[¦]=a', 'let{a:¦}=b', 'const ¦', 'const ¦=1', 'const a=¦', 'const{¦}=a', 'const[a,¦]=b', 'let\n¦', 'var\n¦',
  'if(¦)a', 'if(¦)a;else b', 'if(a)¦', 'if(a)¦;else b', 'if(a);else ¦', 'while(¦)a', 'while(a)¦', 'do ¦;while(a)', 'do a;while(¦)', 'do;while(¦)a', 'for(¦;;)a', 'for(;¦;)a', 'for(;;¦)a', 'for(;;)¦', 'for(¦;a;b);', 'for(¦ in a);', 'for(¦ of a);', 'for(a in ¦);', 'for(a of ¦);', 'for(var ¦ in a);', 'for(var ¦ of a);', 'for(var ¦;;);', 'for(var ¦=1;;);', 'for(var a=¦;;);', 'for(var a=¦,b;;);', 'for(var a of ¦);', 'for(var a in ¦);', 'for(let ¦ of a);', 'for(let ¦;;);', 'for(let a=¦;;);', 'for(let a in ¦);', 'for(const ¦ in a);', 'for(const ¦=1;;);', 'for(const a=¦;;);', 'for(const a of ¦)b', 'for((¦)of a);', 'for((¦)in a);', 'for((¦);;);', 'for([¦]of a);', 'for({a:¦}in b);', 'for({a=¦}of b);', 'for(a[¦]of b);', 'for(a of b)¦', 'for(a=¦;;);', 'for(a=¦ in b;;);', 'for await(¦ of a);', 'for await(a of ¦);', 'for await(var ¦ of a);', 'for(var[¦]of a);', 'for(let{a:¦}in b);', 'for(let[a=¦]of b);', 'for(a=>¦;;);', 'for(var a=b=>¦;;);', 'for(a?¦:b;;);', 'for(a?b:¦;;);',
  'switch(¦){}', 'switch(a){case ¦:}', 'switch(a){case b:¦}', 'switch(a){default:¦}', 'switch(a){case b:case ¦:default:c}', 'switch(a){¦}', 'try{¦}catch(a){}', 'try{}catch(¦){}', 'try{}catch(a){¦}', 'try{}catch({a=¦}){}', 'try{}catch([¦]){}', 'try{}catch{¦}', 'try{}finally{¦}', 'with(¦)a', 'with(a)¦', 'throw ¦', 'throw\n¦', 'return ¦', 'return\n¦', 'break ¦', 'continue ¦', 'a:for(;;){break ¦}', '¦:a', 'a:¦', 'a:b:¦', 'debugger ¦', 'else ¦', 'case ¦:',
  'function ¦(){}', 'function f(¦){}', 'function f(a,¦){}', 'function f(...¦){}', 'function f(a=¦){}', 'function f({a=¦}){}', 'function f([¦]){}', 'function f({a:¦}){}', 'function f(){¦}', 'function f(){return ¦}', 'function f(){"use strict";¦}', 'function f(¦){"use strict"}', 'function ¦(){"use strict"}', 'function*f(){¦}', 'function*f(){yield ¦}', 'function*f(){yield*¦}', 'function*f(a=¦){}', 'function*f(¦){}', 'function*¦(){}', 'async function f(){¦}', 'async function f(){await ¦}', 'async function f(){for await(a of ¦);}', 'async function f(a=¦){}', 'async function f(¦){}', 'async function ¦(){}', 'async function*f(){¦}', 'async function*f(a=¦){}', '(function ¦(){})', '(function*¦(){})', '(async function ¦(){})', '(async function*¦(){})', '(function(¦){})', '(function(a=¦){})', '(function*(a=¦){})', '(async function(a=¦){})', '(function(){¦})', '(function*(){¦})', '(async function(){¦})', '!function(){¦}()',
  'class ¦{}', 'class A extends ¦{}', 'class A extends(¦){}', 'class A{¦}', 'class A{¦(){}}', 'class A{static ¦(){}}', 'class A{get ¦(){}}', 'class A{[¦](){}}', 'class A{static[¦](){}}', 'class A{async ¦(){}}', 'class A{*¦(){}}', 'class A{a(){¦}}', 'class A{a(){return ¦}}', 'class A{static a(){¦}}', 'class A{*a(){¦}}', 'class A{async a(){¦}}', 'class A{get a(){¦}}', 'class A{set a(¦){}}', 'class A{a(¦){}}', 'class A{a(b=¦){}}', 'class A{constructor(){¦}}', 'class A{constructor(¦){}}', 'class A extends B{constructor(){¦}}', 'class A extends B{constructor(a=¦){}}', 'class A extends B{constructor(){super(¦)}}', 'class A extends B{a(){¦}}', '(class ¦{})', '(class extends ¦{})', '(class{a(){¦}})', '(class{[¦](){}})', '(class A extends B{constructor(){()=>¦}})',
  'export default ¦', 'export ¦', 'export{¦}', 'export{a as ¦}var a', 'export{¦}from"a"', 'export*from ¦', 'export var a=¦', 'export var ¦', 'export let a=¦', 'export const a=¦', 'export const{a=¦}=b', 'export default class extends ¦{}', 'export default function(a=¦){}', 'export default async()=>¦', 'export default[¦]', 'export default{a:¦}', 'export function f(){¦}', 'export default function*(){¦}', 'export default async function(){¦}', 'export class A{[¦](){}}', 'import ¦ from"a"', 'import{¦}from"a"', 'import{a as ¦}from"b"', 'import*as ¦ from"a"', 'import ¦', 'import"a";¦', 'export{};¦'];
const WRAP = [x => x, x => x, x => x, x => x, x => `function F(){${x}}`, x => `function*F(){${x}}`, x => `async function F(){${x}}`, x => `async function*F(){${x}}`, x => `F=()=>{${x}};`, x => `F=async()=>{${x}}`, x => `F={M(){${x}}}`, x => `F={*M(){${x}}}`, x => `class K{M(){${x}}}`, x => `class K extends J{constructor(){${x}}}`, x => `{${x}}`, x => `for(;;){${x}}`, x => `"use strict";${x}`, x => `'a';${x}`, x => `(function(){${x}})()`, x => `F:{${x}}`, x => `switch(F){case G:${x}}`, x => `if(F){${x}}else{${x}}`, x => `F\n${x}\nG`, x => `F;${x}\n;G`, x => `try{${x}}catch(F){${x}}`, x => `do{${x}}while(F)`, x => `\`\${()=>{${x}}}\``];
const OPS = ['+', '-', '*', '/', '%', '**', '<<', '>>', '>>>', '<', '>', '<=', '>=', '==', '!=', '===', '!==', '&', '|', '^', '&&', '||', ' in ', ' instanceof ', ',', '=', '+=', '-=', '*=', '/=', '%=', '**=', '<<=', '>>=', '>>>=', '&=', '|=', '^=', '=>', '?', ':', '?a:', '.', '?.', '??', ' of ', ' as ', '\n', ' ', ';', '...', '(', '[', '{', '`', '!', '++', '--', '\n++', '=\n', '/**/', '\n/', '!=a=', '&&a||', ')=>', ']=', '}='];
const STMTS = ['a', 'a=b', 'a()', 'var a', 'var a=1,b', 'let a', 'let a=1', 'const a=1', 'let[a]=b', 'let', 'let\na', 'function f(){}', 'function*f(){}', 'async function f(){}', 'async\nfunction f(){}', 'class A{}', 'class A extends B{}', 'if(a)b', 'if(a)b;else c', 'if(a){}else{}', 'if(a)', 'while(a)b', 'while(a){}', 'do a;while(b)', 'do{}while(b)', 'do a\nwhile(b)', 'for(;;)a', 'for(a in b)c', 'for(var a of b){}', 'for(let a;;){}', 'for(let of a);', 'for(async of=>a;;);', 'for(async of a);', 'for await(a of b);', 'switch(a){}', 'switch(a){case b:default:c;break}', 'try{}catch(a){}', 'try{}catch{}finally{}', 'try{}', 'throw a', 'throw', 'return', 'return a', 'break', 'break l', 'continue', 'continue l', 'debugger', '', ';', '{}', '{a}', '{a:1}', '{a;b}', '{{}}', 'with(a)b', 'l:a', 'l:for(;;){continue l}', 'l:{break l}', 'l:function f(){}', 'yield a', 'yield', 'yield*a', 'await a', 'await', '"use strict"', '"a"', "'a'.b", '`a`', '/a/g', '/=a/', '(a)', '[a]=b', '({a}=b)', '{a}=b', '++a', 'a++', '-a', '!a', 'new a', 'this', 'null', '1', '.5', 'a=>b', 'a=>{}', '()=>{}', '(function(){})', '(function(){}())', 'async a=>b', 'async()=>{}', 'async', 'async()', 'function f(){}()', 'class A{}.b', '{}.a', '{}[a]', '{}/a/g', 'import"a"', 'import a from"a"', 'import*as a from"a"', 'import{a}from"a"', 'import(a)', 'export{}', 'export{a}from"a"', 'export*from"a"', 'export default a', 'export default function(){}', 'export default class{}', 'export var a', 'export const a=1', 'export function f(){}', 'export class A{}', 'enum', 'else a', 'case a:', 'default:', 'catch(a){}', 'finally{}', 'in a', 'of', 'get', 'static', 'get\na', 'static\na', 'a:', 'a,', 'a.', ')', '}', ']'];
const HOLD = ['¦', '{¦}', '{a;¦}', '{¦;a}', 'if(a)¦', 'if(a)¦else b', 'if(a)b;else ¦', 'if(a)b;else if(c)¦else d', 'if(a){¦}else{¦}', 'if(a)if(b)¦else c', 'while(a)¦', 'while(a){¦}', 'do ¦while(a)', 'do{¦}while(a)', 'do ¦while(a)b', 'for(;;)¦', 'for(;;){¦}', 'for(a;b;c)¦', 'for(a in b)¦', 'for(a in b){¦}', 'for(var a of b)¦', 'for(let a of b){¦}', 'for(const a=1;;)¦', 'l:for(;;)¦', 'l:while(a){¦}', 'l:¦', 'l:{¦}', 'l:m:¦', 'l:do ¦while(a)', 'l:if(a)¦', 'switch(a){case 1:¦}', 'switch(a){case 1:¦case 2:b}', 'switch(a){default:¦}', 'switch(a){case 1:default:¦case 2:}', 'switch(a){case 1:{¦}}', 'l:switch(a){case 1:¦}', 'try{¦}catch(a){}', 'try{¦}finally{}', 'try{}catch(a){¦}', 'try{}catch{¦}', 'try{}finally{¦}', 'with(a)¦', 'with(a){¦}', 'function f(){¦}', 'function f(){a;¦}', '(function(){¦})', '(function f(){¦})', 'function*f(){¦}', 'async function f(){¦}', 'async function*f(){¦}', '()=>{¦}', 'a=()=>{¦}', 'async()=>{¦}', '({a(){¦}})', '({*a(){¦}})', '({async a(){¦}})', '({get a(){¦}})', '({set a(b){¦}})', 'class A{a(){¦}}', 'class A{static*a(){¦}}', 'class A{static async a(){¦}}', 'class A extends B{constructor(){¦}}', 'for(;;){function f(){¦}}', 'switch(a){case 1:()=>{¦}}', 'l:for(;;){()=>{¦}}', 'for(;;)switch(a){case 1:¦}', 'switch(a){case 1:for(;;)¦}', 'l:for(;;)for(;;)¦', 'function f(){for(;;){¦}}', 'function f(){"use strict";¦}', '"use strict";¦', 'function f(){try{¦}finally{}}', 'function f(){if(a)¦}', 'if(a){if(b)¦}else c', 'export default function(){¦}', 'export function f(){¦}', 'export default class{a(){¦}}', 'a=b=>{¦}', '`${()=>{¦}}`', 'a;¦b', 'a\n¦\nb', 'for(;;){for(a of b){}¦}', 'switch(a){case 1:switch(b){}¦}', 'l:{m:{}¦}', 'for(;;){()=>{}¦}', 'function f(){function g(){}¦}', 'function*f(){function g(){}¦}', 'function*f(){()=>{};¦}', 'async function f(){function g(){}¦}', 'function f(){function g(){"use strict"}¦}', 'switch(a){case 1:for(;;){}¦}', 'for(;;){switch(a){}¦}', 'for(;;){class A{m(){}}¦}', 'class A{}¦', 'function f(){class A{}¦}'];
const TERM = [';', ';', '\n', '\n', '', ' ', '\r', '\u2028', '/*\n*/', '//a\n', '/**/', ';;'];
const goalOf = (s, d) => /^[^]*\b(import\b(?!\s*\()|export\b)/.test(s) ? 'module' : d.int(6) ? 'script' : 'module';
const inner = (d, s) => d.pick(WRAP)(s);
const gens = {
  place(d) { const p = d.pick(PLACES), s = p.replace('¦', () => d.pick(EXPRS)); return s; },
  deep(d) { let s = d.pick(EXPRS); for (let n = d.range(2, 3); n > 0; n--) { const p = d.pick(PLACES); s = p.replace('¦', () => d.int(3) ? s : '(' + s + ')'); } return s; },
  pair(d) { let s = d.pick(EXPRS); for (let n = d.weigh([[4, 1], [2, 2], [1, 3]]); n > 0; n--) s += d.pick(OPS) + d.pick(EXPRS); return d.int(2) ? s : d.pick(PLACES).replace('¦', () => s); },
  stmt(d) { let s = d.pick(STMTS) + d.pick(TERM); while (d.chance(30)) s += d.pick(STMTS) + d.pick(TERM); return d.pick(HOLD).replace(/¦/g, () => s); },
  deepStmt(d) { let s = gens.stmt(d); for (let n = d.range(1, 2); n > 0; n--) { const t = s; s = d.pick(HOLD).replace('¦', () => t + d.pick(TERM)).replace(/¦/g, () => d.pick(STMTS) + d.pick(TERM)); } return s; },
};
// A forbidden form with its holes filled
const ATW = WRAP.filter(f => /\{¦\}/.test(f('¦')));
function forbidden(d, i) {
  const F = FORBIDDEN[i % FORBIDDEN.length], goal = /\b(im|ex)port\b/.test(F) ? 'module' : d.int(4) ? 'script' : 'module';
  const put = (f, fuel) => { const g = new Gen(d, { goal, fuel: d.int(fuel), w: { import: 0, export: 0 } }); g.n = d.int(90) * 10; f(g); return render(g.out, 'space', d); };
  let s = F.replace(/S1|[ESBP](?![A-Za-z])(?!trict)/g, h => h === 'E' ? put(g => g.assign(), 5) : h === 'B' ? put(g => g.e(g.fresh()), 1) : h === 'P' ? put(g => g.pattern(false), 4) : h === 'S1' ? put(g => g.withc({}, () => g.stmt(false)), 4) : d.int(3) ? '' : put(g => { g.stmt(true); if (d.int(2)) g.stmt(true); }, 8));
  const around = () => d.int(2) ? '' : put(g => g.stmt(true), 8) + '\n';
  s = around() + s + (d.int(2) ? '\n;' + around() : '');
  if (!/^(im|ex)port/.test(F) && d.int(3) === 0) s = d.pick(ATW)(s);
  return { src: s, goal };
}
// The phases: counts are those of the quick tier; filter: which texts concern the property
function phases(tier, filter, k = 1) {
  const th = tier === 'thorough', m = k * (th ? 14 : 1), ok = s => !filter || filter.test(s);
  const mk = (f, wrap) => d => { let s = f(d); if (!ok(s)) return null; if (wrap) s = inner(d, s); return { src: s, goal: goalOf(s, d) }; };
  const NE = EXPRS.length, NP = PLACES.length, NS = STMTS.length, NH = HOLD.length;
  const W = WRAP.length;
  return [
    { name: 'expressions x places', cases: th ? NE * NP * 6 : 40000 * k, gen(d, ctx, i) { let s, w; if (th) { const j = i % (NE * NP); s = PLACES[j % NP].replace('¦', () => EXPRS[Math.floor(j / NP)]); w = i < NE * NP ? WRAP[0] : WRAP[4 + d.int(W - 4)]; } else { s = gens.place(d); w = d.pick(WRAP); } if (!ok(s)) return null; s = w(s); return { src: s, goal: goalOf(s, d) }; } },
    { name: 'expressions in nested places', cases: 30000 * m, gen: mk(gens.deep, true) },
    { name: 'expressions around operators', cases: 30000 * m, gen: mk(gens.pair, true) },
    { name: 'statements x bodies', cases: th ? NS * NH * 8 : 40000 * k, gen(d, ctx, i) { let s; if (th) { const j = i % (NS * NH), st = STMTS[j % NS] + TERM[(j + Math.floor(i / (NS * NH)) * 5) % TERM.length] + (i < NS * NH ? '' : d.pick(STMTS) + d.pick(TERM)); s = HOLD[Math.floor(j / NS)].replace(/¦/g, () => st); } else s = gens.stmt(d); return ok(s) ? { src: s, goal: goalOf(s, d) } : null; } },
    { name: 'statements in nested bodies', cases: 30000 * m, gen: mk(gens.deepStmt, false) },
    { name: 'forbidden forms in place', cases: 30000 * m, gen(d, ctx, i) { const c = forbidden(d, i); return ok(c.src) ? c : null; } },
  ];
}
module.exports = { EXPRS, PLACES, STMTS, HOLD, OPS, WRAP, phases, forbidden, gens };
