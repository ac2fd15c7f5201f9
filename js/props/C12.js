'use strict';
const { Gen } = require('../gen.js');
const { differential, sameTree, bad } = require('../common.js');
const { NLS, starter, sticky, split, layout } = require('../asi.js');
const FRAG = ['a', 'b', 'a=b', 'a()', 'a.b', 'a++', '++a', '--a', 'a--', '+a', '-a', '!a', '(a)', '[a]', '{}', '{a}', '({})', '`t`', '/r/g', '"s"', '1', 'var a', 'var a=1', 'let a', 'let a=1', 'const a=1', 'let', 'return', 'return a', 'break', 'break l', 'continue', 'continue l', 'throw a', 'throw', 'debugger', ';', 'if(a)b', 'if(a)', 'if(a){}', 'else b', 'else{}', 'else', 'while(a)b', 'while(a)', 'while(a){}', 'do a', 'do{}', 'do', 'for(;;)a', 'for(a in b)', 'for(;;){}', 'function f(){}', 'function*f(){}', 'async function f(){}', 'async', 'async a=>a', 'a=>a', 'a=>{}', '()=>{}', '=>a', '=>{}', 'async()', 'x=function(){}', 'class A{}', 'x=class{}', 'yield', 'yield a', 'yield*a', 'await a', 'await', 'l:', 'l:a', 'switch(a){}', 'switch(a){case 1:a}', 'try{}catch(e){}', 'try{}finally{}', 'in a', 'instanceof a', '.b', ',b', '*b', '/b', '/b/g', '?b:c', '=b', '+=b', '&&b', '`', 'of', 'of b', 'get', 'static', 'new a', 'new', 'typeof a', 'delete a', 'void', 'this', '"use strict"', 'import a from "a"', 'import "a"', 'import{a}from"a"', 'import*as a from"a"', 'export default a', 'export{}', 'from "a"', 'from', 'export*from"a"', 'export var a', 'export default function(){}', 'export default class{}', 'as b', 'target', '.target', 'a=>b\n', '}', '{', '(', ')', 'for(a', 'of b)c', 'for(;', ';)', 'for(a;b', 'c)d', 'function f()', '{return', 'async function', '()', 'x=>', 'x', 'case 1:', 'with(a)b'];
const HOT = /^(yield|async|await|return|throw|break|continue|let|static|get|set|\)|new|of|export|default|import|case|do|else|[\w$]+)$/;
// [around it, the form with its gaps as blanks]
const G = 'function*g(){@}', A = 'async function f(){@}', N = '@', L = 'l:for(;;){@}', C = 'class A{@}', O = 'x={@}', F = 'function f(){@}', AG = 'async function*f(){@}';
const FORMS = [[G, 'yield'], [G, 'yield a'], [G, 'yield * a'], [G, 'x = yield'], [G, 'x = yield * a'], [G, 'yield yield * a'], [G, 'f ( yield * a , yield )'], [G, '[ yield * a ]'], [G, 'yield / a / g'], [G, 'yield [ a ]'], [G, 'yield ( a )'], [G, 'yield ? b : c'], [G, 'yield in a'], [G, 'x = yield , a'], [A, 'await a'], [A, 'await ( a )'], [A, 'await * a'], [A, 'x = await a'], [A, 'for await ( x of a ) ;'], [AG, 'yield * await a'], [AG, 'yield await a'],
  [N, 'async function f ( ) { }'], [N, 'async function * f ( ) { }'], [N, 'x = async function ( ) { }'], [N, 'x = async function * g ( ) { }'], [N, 'async a => b'], [N, 'x = async a => b'], [N, 'async ( ) => { }'], [N, 'async ( a , b ) => c'], [N, 'f ( async a => b )'], [N, 'f ( async ( a ) => b )'], [N, 'a => b'], [N, '( ) => { }'], [N, '( a , ...b ) => { }'], [N, 'x = ( a ) => b'], [N, 'f ( a => b , ( c ) => d )'], [N, 'async ( a )'], [N, 'x = async ( a ) . b'], [N, 'async in a'], [N, 'async'], [N, 'x = { async a ( ) { } }'],
  [O, 'async a ( ) { }'], [O, 'async * a ( ) { }'], [O, 'async [ a ] ( ) { }'], [O, 'async "a" ( ) { }'], [O, 'async 1 ( ) { }'], [O, 'async get ( ) { }'], [O, 'get a ( ) { }'], [O, 'get [ a ] ( ) { }'], [O, 'set a ( b ) { }'], [O, '* a ( ) { }'], [O, 'get ( ) { }'], [O, 'async ( ) { }'], [O, 'get : a'], [O, 'async : a , set'],
  [C, 'async a ( ) { }'], [C, 'async * a ( ) { }'], [C, 'static a ( ) { }'], [C, 'static async a ( ) { }'], [C, 'static async * a ( ) { }'], [C, 'static get a ( ) { }'], [C, 'static set a ( b ) { }'], [C, 'get a ( ) { }'], [C, 'set a ( b ) { }'], [C, '* a ( ) { }'], [C, 'static * a ( ) { }'], [C, 'async ( ) { } ; get ( ) { }'], [C, 'static ( ) { }'], [C, 'static static ( ) { }'], [C, 'static async ( ) { }'],
  [F, 'return'], [F, 'return a'], [F, 'return ( a )'], [F, 'return / a / g'], [F, 'return { }'], [F, 'return [ a ]'], [F, 'return + a ; b'], [F, 'if ( a ) return b ; else c'], [F, 'return function ( ) { }'], [N, 'throw a'], [N, 'throw ( a )'], [N, 'throw { }'], [N, 'if ( a ) throw b ; else c'], [N, 'throw new a'], [L, 'break l'], [L, 'continue l'], [L, 'break ; l'], [L, 'continue'], [L, 'if ( a ) break l ; else b'], [L, 'if ( a ) continue l'], [L, 'if ( a ) continue ; else break l'],
  [N, 'a ++'], [N, 'a --'], [N, '++ a'], [N, 'a ++ b'], [N, 'a ++ ++ b'], [N, 'a + ++ b'], [N, 'a + b ++'], [N, 'a . b ++'], [N, 'a [ b ] --'], [N, '( a ) ++'], [N, 'x = a ++ + b'], [N, 'f ( a ++ )'], [N, 'if ( a ) b ++ ; else -- c'], [N, 'for ( a ++ ; b ++ ; c ++ ) d ++'], [N, '- a ++'], [N, 'a ++ ; b --'], [N, 'new a ++'],
  [N, 'let a'], [N, 'let [ a ] = b'], [N, 'let { a } = b'], [N, 'let let'], [N, 'let ; a'], [N, 'let = a'], [N, 'let ( a )'], [N, 'let . a'], [N, 'if ( a ) let ; b'], [N, 'if ( a ) let b'], [N, 'while ( a ) let { b }'], [N, 'do let ; while ( a )'], [N, 'do a ; while ( b ) c'], [N, 'do { } while ( a ) b'], [N, 'l : let a'], [N, 'for ( let of ; ; ) ;'], [N, 'for ( let a of b ) ;'], [N, 'for ( let in a ) ;'], [N, 'for ( let ; ; ) ;'], [N, 'var a = b'], [N, 'var a , b'], [N, 'const a = b , c = d'], [N, 'var a b'], [N, 'const [ a ] = b'],
  [N, 'import a from "a"'], [N, 'import * as a from "a"'], [N, 'import { a as b } from "a"'], [N, 'import a , { b } from "a"'], [N, 'import a , * as b from "a"'], [N, 'import "a"'], [N, 'export * from "a"'], [N, 'export { a as b } from "a" ; var a'], [N, 'export { } ; a'], [N, 'export default a'], [N, 'export default async function ( ) { }'], [N, 'export default async ( ) => { }'], [N, 'export default async a => b'], [N, 'export default function * ( ) { }'], [N, 'export default class { }'], [N, 'export async function f ( ) { }'], [N, 'export var a = b'], [N, 'export default async'], [N, 'export default ( a ) => b'],
  [N, 'a = b ( c )'], [N, 'a = b [ c ]'], [N, 'a = b ` c `'], [N, 'a = b / c / d'], [N, 'a = b + c'], [N, 'a ( b ) { }'], [N, 'if ( a ) b else c'], [N, 'while ( a ) b c'], [N, '{ a } b'], [N, '{ a b }'], [N, 'a ? b : c d'], [N, 'debugger a'], [N, 'debugger'], [N, 'switch ( a ) { case b : c case d : e default : f }'], [N, 'try { a } catch ( e ) { b } finally { c } d'], [N, 'function f ( ) { } ( a )'], [N, 'class A { } [ a ]'], [N, 'x = function ( ) { } ( a )'], [N, 'a in b instanceof c'], [N, 'typeof a'], [N, 'new a ( b )'], [N, 'new a . b [ c ] ( d )'], ['function f(){@}', 'new . target'], [N, 'this . a'], [N, 'f ( ) . a ( )'], [N, '"use strict" + a'], [N, '"use strict" with ( a ) b'], [F, '"use strict" . a ; with ( a ) b'], [F, '"use strict" ; with ( a ) b'], [F, '"a" "use strict" public = 1'], [N, 'with ( a ) b c'], [N, 'l : a b'], [N, 'a => { } b'], [N, 'a => { } ( b )'], [N, 'x = a => { } / b / g'], [N, 'a => b => c'], [N, 'a ( ) => b'], [N, 'a , b => c']];
const SEP = [' ', '\n', ';', '\n', ';\n', '/*\n*/', '/**/', '//x\n', '\u2028', '\r\n', ' '];
const WRAP = [x => x, x => x, x => `{${x}}`, x => `function f(){${x}}`, x => `function*f(){${x}}`, x => `async function f(){${x}}`, x => `l:for(;;){${x}}`, x => `()=>{${x}}`, x => `switch(a){case 1:${x}}`, x => `(function(){${x}})`, x => `class A{m(){${x}}}`, x => `l:while(a)${x}`, x => `if(a)${x}`, x => `do ${x}\nwhile(a)`, x => `do ${x} while(a) b`];
const W = { leaf: 60, exprStmt: 25, var: 14, lexical: 8, return: 6, yield: 14, assignment: 14 };
module.exports = {
  scale: ['statements', 'blanks', 'bodies', 'cases', 'methods'],
  plan(tier) {
    const m = tier === 'thorough' ? 12 : 1;
    const prog = d => { const goal = d.int(4) ? 'script' : 'module', g = new Gen(d, { goal, fuel: 5 + d.int(30), w: d.int(3) ? W : {} }); return { L: split(g.program(1, 4)), goal }; };
    const plain = L => L.map(x => x.t).join(' ');
    return [
      { name: 'semicolons left out', cases: 90000 * m, gen(d) { const { L, goal } = prog(d), [b, n] = layout(d, L, d.pick([100, 50, 25]), d.pick([0, 0, 20])); if (!n) return null; return { t: 'same', a: plain(L), b, goal, n }; } },
      { name: 'line breaks everywhere they are allowed', cases: 50000 * m, gen(d) { const { L, goal } = prog(d), [b] = layout(d, L, 0, d.pick([100, 60, 30])); return { t: 'same', a: plain(L), b, goal, n: 1 }; } },
      { name: 'semicolons missing', cases: 50000 * m, gen(d) {
        const { L, goal } = prog(d), at = [];
        L.forEach((x, i) => { if (x.semi && !x.dow && i && L[i + 1] && L[i + 1].t !== '}' && !/^(\+\+|--|\{)$/.test(L[i + 1].t) && starter(L[i + 1].t) && !sticky(L[i - 1].t)) at.push(i); });
        if (!at.length) return null;
        const i = d.pick(at), r = d.pick([' ', '/**/', '  ', '\t', '/* ; */']);
        return { t: 'reject', a: plain(L), b: L.slice(0, i).map(x => x.t).join(' ') + r + ' ' + L.slice(i + 1).map(x => x.t).join(' '), goal, n: 1 };
      } },
      { name: 'a line break anywhere', cases: 60000 * m, gen(d) { const { L, goal } = prog(d), ts = L.map(x => x.t), n = d.weigh([[6, 1], [1, 2]]), hot = ts.map((t, i) => i).filter(i => i && HOT.test(ts[i - 1]) || /^(=>|\+\+|--|\*)$/.test(ts[i])); for (let k = 0; k < n; k++) { const i = hot.length && d.chance(75) ? d.pick(hot) : d.int(ts.length); ts[i] = d.pick(NLS) + ts[i]; } return { t: 'diff', src: ts.join(' '), goal }; } },
      { name: 'line breaks in every gap of short forms', cases: 40000 * m, gen(d, ctx, i) { const [w, f] = d.pick(FORMS), ts = f.split(' '); for (let n = d.weigh([[1, 0], [8, 1], [3, 2], [1, 4]]); n > 0; n--) { const i = d.int(ts.length); ts[i] = d.pick(NLS) + ts[i]; } const s = ts.join(' '), goal = /import|export/.test(f) || d.chance(6) ? 'module' : 'script'; let src = w.replace('@', () => s); if (goal === 'script' && d.chance(25)) src = d.pick(WRAP)(src); return { t: 'diff', src, goal }; } },
      { name: 'fragments x separators', cases: 200000 * m, gen(d) { const n = d.weigh([[6, 2], [5, 3], [3, 4], [1, 5]]); let s = d.pick(FRAG); for (let i = 1; i < n; i++) s += d.pick(SEP) + d.pick(FRAG); s += d.pick(['', '', '\n', ';', ' ']); const w = d.pick(WRAP); return { t: 'diff', src: w(s), goal: /import|export/.test(s) ? 'module' : d.int(12) ? 'script' : 'module' }; } },
      { name: 'all pairs of fragments', cases: tier === 'thorough' ? FRAG.length ** 2 * 4 : 40000, gen(d, ctx, i) {
        const N = FRAG.length; let x, y, k; if (tier === 'thorough') { k = i % 4; x = Math.floor(i / 4) % N; y = Math.floor(i / 4 / N); } else { x = d.int(N); y = d.int(N); k = d.int(4); }
        const s = FRAG[x] + ['\n', ' ', ';', '/*\n*/'][k] + FRAG[y]; return { t: 'diff', src: d.pick(WRAP)(s), goal: /import|export/.test(s) ? 'module' : 'script' };
      } },
    ];
  },
  check(c, ctx) {
    if (c.t === 'diff') return differential(c, ctx);
    const a = ctx.g.parse(c.a, c.goal), b = ctx.g.parse(c.b, c.goal), f = bad(a) || bad(b); if (f) return f;
    if (a.k !== 'ok') { ctx.last = 'skip'; return null; }
    ctx.last = 'ok';
    if (c.t === 'reject') return b.k === 'ok' ? { sig: 'accepted', msg: `accepted without a semicolon that cannot be inserted: ${c.b}` } : null;
    const r = sameTree(a, b);
    return r ? { sig: r.sig, msg: `${r.msg}\nwith semicolons: ${c.a}\nwithout: ${c.b}` } : null;
  },
  nontrivial: (c, ctx) => ctx.last === 'ok' && (c.t !== 'diff' || /[\n\r\u2028\u2029]/.test(c.src)),
  rule: 'Generated programs with a random subset of their optional semicolons left out wherever the next token cannot continue the statement, or with line breaks in all permitted gaps: same tree; with a semicolon replaced by blanks where none is inserted: rejected; one or two line breaks at any place of generated programs, and in any gap of ~200 short forms (restricted productions, contextual keywords), and ~135 statement fragments joined by every kind of separator inside 15 wrappers, against the reference. Non-trivial: accepted, with at least one line break or omitted semicolon.',
};
