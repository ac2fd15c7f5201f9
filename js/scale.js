'use strict';
// Texts in which a piece is repeated up to some boundary: counters, narrow integers, caches and limits
// show only there. Every check names (in `scale`) the rows that concern its property; load.js adds them
// to its plan, and they are judged against the reference tree.
const { Gen, render } = require('./gen.js');
const { mutateText } = require('./mutate.js');
const { differential, bad } = require('./common.js');
// kind: [[before, separator, after]...], pieces (# becomes the index of the piece, so that names differ)
const R = {
  elements: { at: [['[', ',', ']'], ['x=[', ',', ',]'], ['f(', ',', ')'], ['new A(', ',', ')'], ['a.b(', ',', ',)'], ['(', ',', ')'], ['x=(', ',', ')'], ['throw ', ',', ''], ['async(', ',', ')'], ['for(', ',', ';;);']], p: ['a', '1', '"b"', '...c', '[d]', '{e}', 'f=>g', '(h,i)', 'j=k', 'l?m:n', '/o/', '`p`', '!q', 'r.s', 't++', 'function(){}', '[]', 'class{}', 'a#', 'this', 'null', 'true', 'new u', 'async v=>w', '', '[[]]', '{}', '-1', '.5', '0x1f'] },
  operands: { chain: 1, at: [['', '', ''], ['x=', '', ''], ['(', '', ')'], ['if(', '', ');'], ['f(', '', ')'], ['for(a in b', '', ');']], first: 'z', p: ['+a', '-b', '*c', '/d', '%e', '**f', '<<g', '>>h', '>>>i', '<j', '>k', '<=l', '>=m', ' in n', ' instanceof o', '==p', '!=q', '===r', '!==s', '&t', '^u', '|v', '&&w', '||x', '+-a', '- --b', '*!c', '+(d,e)', '&&(f||g)', '-typeof h', '+i++', '+1', '+"j"', '**-k'] },
  rights: { chain: 1, at: [['', '', ''], ['x=[', '', ']'], ['f(', '', ')'], ['var x=', '', '']], last: 'z', p: ['a=', 'b+=', 'c.d=', 'e?f:', '!', '-', 'typeof ', 'g=>', 'void ', '[h]=', '({i}=j)?k:', 'async l=>', '(m,n)=>', 'o**', '~', '+ ', 'delete ', 'p[q]>>>=', 'r**=', '()=>'] },
  members: { chain: 1, at: [['a', '', ''], ['new a', '', ''], ['x=a', '', ''], ['(a', '', ')'], ['this', '', ''], ['f(a', '', ')'], ['for(a', '', ' of z);'], ['a', '', '=z'], ['a', '', '++'], ['++a', '', ''], ['({a:b', '', '}=z)'], ['[b', '', ']=z']], p: ['.a', '[b]', '.if', '["c"]', '[0]', '.d[e]', '.a#', '\n.f'] },
  calls: { chain: 1, at: [['a', '', ''], ['x=a', '', ''], ['new a', '', ''], ['(a)', '', ''], ['a', '', '.z=y']], p: ['()', '(a)', '.b()', '[c](d,e)', '`f`', '(...g)', '.h', '(i=>j)', '(function(){})', '`${k}`'] },
  properties: { at: [['({', ',', '})'], ['x={', ',', ',}'], ['f({', ',', '})'], ['[{', ',', '}]']], p: ['a', 'b:c', '[d]:e', 'f(){}', 'get g(){}', '"h":1', '2:i', '...j', 'async*k(){}', 'l:{m}', 'set n(o){}', 'if:p', '*q(){yield}', 'async r(){await s}', 'get:t', 'set(){}', 'async', 'u:v=>w', 'a#:b#', 'static:1', 'get "x"(){}', 'set[y](z){}'] },
  methods: { at: [['class A{', '', '}'], ['x=class extends B{', ';', '}'], ['class A extends B{', ' ', '}'], ['(class{', '', '})']], p: ['a(){}', 'static b(){}', 'get c(){}', '[d](){}', '*e(){}', 'async f(){}', '"g"(){}', ';', 'set h(i){}', 'j(){super.k}', 'static async*l(){}', 'static get m(){}', 'get(){}', 'static(){}', 'async(){}', 'a#(){}', 'if(){}', '1(){}', 'static set[n](o){}', ';;'] },
  bindings: { at: [['var [', ',', ']=x'], ['let {y,z:[', ',', ']}=x'], ['([', ',', '])=>x'], ['for(var [', ',', '] of x);'], ['function f([', ',', ']){}'], ['try{}catch([', ',', ']){}'], ['[', ',', ']=x'], ['({y:[', ',', ']}=x)'], ['async([', ',', '])=>x'], ['for([', ',', '] in x);']], p: ['a#', 'b#=1', '[c#]', '{d#}', '{e:f#}', '{g:h#=i}', '', '[j#=k]', '{[l]:m#}', '[[n#]]', '[,o#]', '{"p":q#,r#=s}'] },
  patternProps: { at: [['var {', ',', '}=x'], ['({', ',', '}=x)'], ['({', ',', '})=>x'], ['function f({', ',', '}){}'], ['for(const {', ',', '} of x);'], ['[{', ',', '}]=x'], ['async({', ',', '})=>x'], ['try{}catch({', ',', '}){}']], p: ['a#', 'b:c#', 'd#=1', 'e:{f#}', '[g]:h#', 'i:[j#,k#]', '"l":m#=n', '2:o#', 'if:p#', 'q:{r:s#}', 'get:t#', 'u:[,v#]=w'] },
  params: { at: [['function f(', ',', '){}'], ['(', ',', ')=>x'], ['async(', ',', ')=>x'], ['({m(', ',', '){}})'], ['class A{constructor(', ',', '){}}'], ['(function*(', ',', '){})'], ['async function f(', ',', ',){}'], ['(async function*(', ',', '){})']], p: ['a#', 'b#=1', '{c#}', '[d#,[e#]]', '{f:g#=1}', '{h#,i:j#}', '[k#=l]', 'm#=n=>o', 'p#={}', 'q#=(r,s)'] },
  functions: { at: [['', '', ''], ['function f(){', '', '}'], ['x=()=>{', '', '}'], ['class A{m(){', '', '}}'], ['{', '', '}'], ['async function*f(){', '', '}']], p: ['function a#(){}', 'function*b#(){yield}', 'async function c#(){await d}', '(function(){});', '(()=>{});', 'e=>f;', 'async g=>h;', 'async function*i#(){}', '(function j(){return k});', 'l=()=>({});', 'function m#(n,...o){}', 'function p#(){"use strict"}', 'q=async()=>{};'] },
  statements: { at: [['', '', ''], ['{', '', '}'], ['function f(){', '', '}'], ['switch(y){case z:', '', '}'], ['for(;;){', '', '}'], ['try{', '', '}finally{}'], ['if(y){', '', '}else z'], ['x=>{', '', '}'], ['"use strict";', '', ''], ['l:{', '', '}']], p: ['a;', 'b\n', 'var c;', 'let d#;', 'const e#=1;', 'if(f)g;', 'if(h);else i;', 'for(;;){}', 'for(j in k);', 'for(l of m);', 'while(n);', 'do;while(o)', 'do p\nwhile(q);', '{}', '{r}', ';', 'switch(s){}', 'try{}catch(t){}', 'try{}catch{}finally{}', 'throw u;', 'debugger;', 'l#:v;', 'class w#{}', 'function x#(){}', 'l#:for(;;){continue l#}', 'for(;;)break;', 'l#:{break l#}', '"y";', '(z);', '[a];', '/b/;', '`c`;', 'switch(d){case e:break}', 'var[f]=g,{h}=i;'] },
  cases: { at: [['switch(y){', '', '}'], ['function f(){switch(y){', '', '}}'], ['for(;;)switch(y){', '', 'default:z}']], p: ['case a:', 'case b:c;', 'case d:{}break;', 'case e:if(f)g\n', 'case {}:', 'case h:;', 'case 1:', 'case i,j:', 'case k:l:break;', 'case(m):return_;', 'case n?o:p:q\n', 'case"r":{s}'] },
  variables: { at: [['var ', ',', ''], ['let ', ',', ''], ['const z=1,', ',', ',y=1'], ['for(var ', ',', ';;);'], ['for(let ', ',', ';;);'], ['export var ', ',', '']], p: ['a#=0', 'b#=1', '{c#}=d', '[e#]=f', 'g#=h=>i', 'j#=(k,l)', 'm#=function(){}', 'n#={}', 'o#=p?q:r', 's#=[t]'] },
  bodies: { chain: 1, at: [['', '', ';'], ['function f(){', '', 'z}'], ['{', '', '{}}'], ['switch(y){case z:', '', ';}']], p: ['if(a);else ', 'l#:', 'while(b)', 'for(;;)', 'with(c)', 'for(e of f)', 'if(g)', 'for(h in i)', 'for(var j of k)', 'if(l){}else ', 'for(let m;;)', 'm#:'] },
  blocks: { chain: 1, close: 1, at: [['', '', '']], p: ['{|}', 'if(a){|}', 'for(;;){|}', 'while(b){|}', 'function f(){|}', '(function(){|})', 'x=()=>{|}', 'class A{m(){|}}', 'try{|}catch(c){}', 'switch(d){case e:|}', 'l#:{|}', '({m(){|}})', 'do{|}while(f)', '`${()=>{|}}`', 'async function g(){|}', 'function*h(){|}', 'try{}finally{|}', '{a;|b}', 'if(i){}else{|}', 'x=async()=>{|}'] },
  nests: { chain: 1, close: 1, core: 'z', at: [['', '', ''], ['x=', '', ''], ['f(', '', ')']], p: ['(|)', '[|]', 'f(|)', 'a[|]', '`${|}`', '(a,|)', '[a,|]', '(b=|)', 'c?|:d', 'e+(|)', '[...|]', 'new A(|)', '(g=>|)', '(async(h=|)=>i)', '((j=|)=>k)', 'f`l${|}m`', '[{n:|}]', '(o?p:|)', '(-|)', '(class{[|](){}})', '(function(q=|){})', '[[r]=|]', '([s=|]=t)', '({u:v=|}=w)', '(class extends(|){})', 'x[|].y', '(|)()', '(|)`z`'] },
  strings: { at: [['"', '', '"'], ["x='", '', "'"], ['f("', '', '")'], ['({"', '', '":1})'], ["import '", '', "'"]], p: ['a', '\\n', '\\x41', '\\u{41}', '\\u0041', 'é', '😀', '\\\n', '\\\r\n', '\\0', ' ', '\\u{1F600}', '\\ud83d\\ude00', '\\q', '\\\\', '\u2028', '/', '\\u{00000061}', '\t', '\\b', '1'], long: 1 },
  templates: { at: [['`', '', '`'], ['f`', '', '`'], ['x=`a${b}', '', '`'], ['`', '', '${a}`']], p: ['a', '\n', '\r\n', '$', '\\`', '\\u{1f600}', 'é', '}', '{', '\\\n', '\\x41', '😀', '\r', '\\n', '"', '/', '\\\\', '$$', '\u2028'], long: 1 },
  quasis: { at: [['`', '', '`'], ['f`', '', '`'], ['x=`', '', '`']], p: ['${a}', 'b${c}', '${`d${e}`}', '${{}}', '$', '${f,g}', '${function(){}}', '${/h/}', '${i}\n', '${{j:{}}}', '${k=>{}}', '}${l}', '${`}`}', '${[m]}', '${a#}', '${"}"}', '${n/o/p}'] },
  blanks: { at: [['', '', 'a'], ['a', '', ''], ['a', '', ';b'], ['f(', '', ')'], ['a+', '', 'b'], ['', '', ''], ['return_', '', '=c'], ['{', '', '}'], ['`${', '', 'a}`']], p: [' ', '\n', '\t', '\r\n', '\u2028', '//a\n', '/*a*/', '/*\n*/', '\ufeff', '/***/', '\u00a0', '\r', '\v', '\f', '\u2029', '//\r', '/*😀*/', '/**/'], long: 1 },
  comments: { at: [['/*', '', '*/a'], ['a/*', '', '*/'], ['//', '', '\na'], ['a//', '', ''], ['a/*', '', '*//*b*/+c'], ['f(/*', '', '*/)'], ['//', '', '\u2028a']], p: ['a', '*', '/ ', ' ', 'é', '"', '😀', '//', '`', '\\', '* ', "'", '}'], long: 1 },
  regexes: { at: [['/a', '', '/'], ['x=/', '', '/g'], ['f(/[', '', ']/)'], ['a/b;/(', '', ')/i.c']], p: ['a', '[/]', '\\/', '(b)', 'é', '[^\\]]', '\\u0041', '.', '\\\\', '|c', '😀', '[a-z]', '\\d', '"', '`'], long: 1 },
  names: { at: [['x', '', ''], ['var y', '', ''], ['a.b', '', '=c'], ['({x', '', ':1})'], ['x', '', ':;'], ['function f', '', '(){}'], ['({x', '', '})'], ['class A', '', '{}'], ['x', '', '=>y']], p: ['a', '$', '_', 'é', '1', '\\u0061', '\\u{62}', '𠮷', '\u200c', '\\u{000063}', 'if', 'Z'], long: 1 },
  digits: { at: [['1', '', ''], ['x=1.', '', ''], ['.1', '', 'e-9'], ['1', '', '.5e3'], ['9.', '', 'e+2'], ['f(1', '', ')'], ['0.0', '', '7']], p: ['0', '1', '9', '5', '4'], long: 1 },
  radix: { at: [['0x1', '', ''], ['x=0XF', '', ''], ['0b1', '', ''], ['0o1', '', ''], ['0O7', '', ''], ['0B1', '', ''], ['01', '', ''], ['0x', '', '1']], p: ['0', '1'], long: 1 },
  directives: { at: [['', '', ''], ['function f(){', '', '}'], ['', '', 'with(z);'], ['function f(){', '', 'with(z);}'], ['x=()=>{', '', 'var public}'], ['({m(){', '', 'yield=1}})'], ['function let(){', '', '}'], ['function f(static){', '', '}']], p: ['"a";', '"b"\n', "'c';", '"use strict";', "'use strict'\n", '"use\\x20strict";', '"d";//e\n', '"use strict" ;', '"";', '("use strict");', '"use strict".f;', "'use strict',g;"] },
  imports: { at: [['import{', ',', '}from"x"'], ['import y,{', ',', ',}from"x"']], p: ['a#', 'b as c#', 'if as d#', 'default as e#', 'as as f#', 'from as g#', 'as#'] , goal: 'module' },
  exports: { at: [['export{', ',', '}from"x"'], ['export{', ',', ',}from"x"'], ['var y;export{', ',', '}from"x"']], p: ['a#', 'b as c#', 'if as d#', 'default as e#', 'f as if#', 'as as g#', 'h#'], goal: 'module' },
  moduleItems: { at: [['', '', ''], ['a;', '', 'export default 1']], p: ['import"a";', 'import b# from"c";', 'import*as d# from"e";', 'import{f#}from"g"\n', 'export*from"h";', 'export var i#;', 'export let j#=1;', 'export function k#(){}', 'export class l#{}', 'm;', 'function n#(){}', 'export{}from"o";', 'export const p#=q=>r;', 'export async function s#(){}', 'import{}from"t";', 'export{u as v#}from"w";'], goal: 'module' },
  labels: { chain: 1, at: [['', '', 'for(;;){continue l0}'], ['', '', '{break l0}'], ['', '', 'for(;;)for(;;)continue l0'], ['', '', 'while(a){(()=>{break l0})}'], ['', '', '{continue l0}'], ['', '', 'for(;;){b:{continue l0}}'], ['function f(){', '', 'do{break l0}while(z)}'], ['', '', 'for(;;){break l1}']], p: ['l#:'] },
};
const SMALL = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 50, 63, 64, 65], MID = [99, 100, 101, 127, 128, 129, 130, 199, 200, 254, 255, 256, 257, 258, 300, 400, 500, 511, 512, 513], BIG = [999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049], HUGE = [4095, 4096, 4097, 9999, 10000, 10001, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000];
const DEEP = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 30, 31, 32, 33, 34, 40, 48, 50]; // nesting
function make(d, kind, size) {
  const r = R[kind], [a, sep, z] = d.pick(r.at);
  if (r.chain) size = ''; // nesting so deep overflows the stack of a recursive parser
  const sizes = size === 'huge' ? HUGE : r.close ? DEEP : r.chain ? d.weigh([[6, SMALL], [3, MID.slice(0, 14)]]) : d.weigh([[6, SMALL], [5, MID], [2, BIG], [r.long ? 1 : 0, HUGE.slice(0, 6)]]);
  let n = d.pick(sizes); if (r.chain && !r.close && kind !== 'operands' && n > 100 && d.int(3)) n = d.pick(SMALL);
  if (size === 'huge' && n > 20000 && r.p.some(p => p.includes('#'))) n = d.pick(HUGE.slice(0, 6)); // (the reference takes quadratic time)
  const base = d.list(1, size === 'huge' ? 2 : 4, () => d.pick(r.p)), odd = d.int(3) ? d.pick(r.p) : null;
  // where the odd one stands: first, last, or anywhere
  const at = d.weigh([[2, n - 1], [1, 0], [2, d.int(n)]]), random = size !== 'huge' && n < 70 && d.int(2);
  let open = '', close = ''; const parts = [];
  for (let i = 0; i < n; i++) {
    let p = odd !== null && i === at ? odd : random ? d.pick(r.p) : base[i % base.length];
    if (p.includes('#')) p = p.replace(/#/g, String(i));
    if (r.close) { const k = p.indexOf('|'); open += p.slice(0, k); close = p.slice(k + 1) + close; } else parts.push(p);
  }
  let src = r.close ? open + (r.core || '') + close : parts.join(sep);
  src = a + (r.first || '') + src + (r.last || '') + z;
  if (size !== 'huge' && d.chance(12)) src = mutateText(d, src, 1);
  src = src.replace(/[\ud800-\udbff](?![\udc00-\udfff])|(?<![\ud800-\udbff])[\udc00-\udfff]/g, 'u');
  return /<!--|-->/.test(src) ? null : { scale: kind, src, goal: r.goal || (/\b(im|ex)port\b/.test(src) ? 'module' : d.int(5) ? 'script' : 'module') };
}
function phases(tier, kinds, k) {
  const m = tier === 'thorough' ? 14 : 1, huge = kinds.filter(x => !R[x].chain);
  return [
    { name: 'repeated pieces', cases: Math.round(Math.max(4000, 700 * kinds.length) * k) * m, gen: d => make(d, d.pick(kinds), '') },
    ...(huge.length ? [{ name: 'pieces repeated very often', cases: 64 * m, gen: d => make(d, d.pick(huge), 'huge') }] : []),
  ];
}
function check(c, ctx, how) {
  if (how === 'total') { const q = ctx.g.parse(c.src, c.goal); ctx.last = q; return bad(q); }
  const f = differential(c, ctx, how === 'reject' ? { want: 'reject' } : {});
  ctx.scaleKind = how === 'reject' ? ctx.last === 'reject' : ctx.last === 'ok'; ctx.count('repeated pieces: reference ' + ctx.last);
  return f;
}
// A property module with the phases of its rows
function extend(P) {
  const kinds = P.scale === 'all' ? Object.keys(R) : P.scale, how = P.scaleHow;
  return Object.assign({}, P, {
    plan: (tier, env) => [...P.plan(tier, env), ...phases(tier, kinds, P.scaleK || 1)],
    check: (c, ctx) => c && c.scale ? P.scaleAs ? P.check(P.scaleAs(c), ctx) : check(c, ctx, how) : P.check(c, ctx),
    nontrivial: (c, ctx) => c && c.scale && !P.scaleAs ? how === 'total' ? ctx.last.k === 'ok' || ctx.last.k === 'err' : ctx.scaleKind : P.nontrivial(c, ctx),
    rule: P.rule + ' Besides: pieces of the kinds ' + kinds.join(', ') + ' repeated up to 2049 (some 70000) times around the sizes where counters and caches break, ' + (P.scaleAs ? 'judged in the same way.' : how === 'total' ? 'which must end in a tree or an error too.' : 'compared with the reference ' + (how === 'reject' ? 'verdict.' : 'tree.')),
  });
}
module.exports = { R, make, phases, extend, MID, BIG, HUGE };
