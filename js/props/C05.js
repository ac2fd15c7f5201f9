'use strict';
const U = require('../unicode.js');
const { bad, differential } = require('../common.js');
const { render } = require('../gen.js');
const WS = new Set([0x85 - 0x85 + 0xa0, 0xfeff, 0x1680, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2009, 0x200a, 0x202f, 0x205f, 0x3000, 0x2028, 0x2029]);
const RESERVED = ['break', 'case', 'catch', 'class', 'const', 'continue', 'debugger', 'default', 'delete', 'do', 'else', 'enum', 'export', 'extends', 'false', 'finally', 'for', 'function', 'if', 'import', 'in', 'instanceof', 'new', 'null', 'return', 'super', 'switch', 'this', 'throw', 'true', 'try', 'typeof', 'var', 'void', 'while', 'with'];
const STRICT = ['implements', 'interface', 'let', 'package', 'private', 'protected', 'public', 'static', 'yield'];
const CONTEXTUAL = ['of', 'get', 'set', 'async', 'from', 'as', 'target', 'meta', 'constructor', 'prototype', '__proto__', 'undefined', 'NaN', 'Infinity', 'eval', 'arguments', 'await', 'use', 'strict', 'abstract', 'boolean', 'byte', 'char', 'double', 'final', 'float', 'goto', 'int', 'long', 'native', 'short', 'synchronized', 'throws', 'transient', 'volatile', 'any', 'type', 'global', 'exports'];
const near = w => [w + 's', w.slice(0, -1), w + '_', w + '1', '$' + w, w.toUpperCase(), w[0].toUpperCase() + w.slice(1), w + '\u0301', w + '\u200d', '_' + w];
const RES = new Set(RESERVED), STR = new Set(STRICT);
// [before, after, kind, path, words it does not judge]
const st = n => n.body[0], es = n => n.body[0].expression, v0 = n => st(n).declarations[0].id;
const POS = [
  ['(', ');', 'ref', n => es(n).name, /^(function|class|this|null|true|false|new|super|delete|typeof|void)$/], ['x=', ';', 'ref', n => es(n).right.name], ['f(', ');', 'ref', n => es(n).arguments[0].name], ['[', '];', 'ref', n => es(n).elements[0].name], ['({x:', '});', 'ref', n => es(n).properties[0].value.name], ['', '+1;', 'ref', n => es(n).left.name, /^(if|for|do)$/], ['a?', ':b;', 'ref', n => es(n).consequent.name], ['`${', '}`;', 'ref', n => es(n).expressions[0].name], ['', '.x;', 'ref', n => es(n).object.name, /^(this|super|null|true|false|new|import)$/], ['new ', ';', 'ref', n => es(n).callee.name], ['', '`t`;', 'ref', n => es(n).tag.name], ['typeof ', ';', 'ref', n => es(n).argument.name], ['', ' in a;', 'ref', n => es(n).left.name], ['if(', ');', 'ref', n => st(n).test.name], ['a=>', ';', 'ref', n => es(n).body.name], ['({', '});', 'ref', n => es(n).properties[0].value.name], ['throw ', ';', 'ref', n => st(n).argument.name], ['class A extends ', '{}', 'ref', n => st(n).superClass.name, null, 'strict'],
  ['', '=1;', 'target', n => es(n).left.name], ['(', '+=1);', 'target', n => es(n).left.name], ['', '++;', 'target', n => es(n).argument.name], ['--', ';', 'target', n => es(n).argument.name], ['[', ']=x;', 'target', n => es(n).left.elements[0].name], ['({x:', '}=y);', 'target', n => es(n).left.properties[0].value.name], ['({', '}=y);', 'target', n => es(n).left.properties[0].value.name], ['({', '=1}=y);', 'target', n => es(n).left.properties[0].value.left.name], ['[...', ']=x;', 'target', n => es(n).left.elements[0].argument.name], ['for(', ' in x);', 'target', n => st(n).left.name, /^(var|const|let)$/], ['for(', ' of x);', 'target', n => st(n).left.name, /^(var|const|let|async)$/],
  ['var ', ';', 'bind', n => v0(n).name], ['var ', '=1;', 'bind', n => v0(n).name], ['var a,', ';', 'bind', n => st(n).declarations[1].id.name], ['let ', '=1;', 'lex', n => v0(n).name], ['const ', '=1;', 'lex', n => v0(n).name], ['var [', ']=x;', 'bind', n => v0(n).elements[0].name], ['var {', '}=x;', 'bind', n => v0(n).properties[0].value.name], ['let {', '=1}=x;', 'lex', n => v0(n).properties[0].value.left.name], ['let {a:', '}=x;', 'lex', n => v0(n).properties[0].value.name], ['var {...', '}=x;', 'bind', n => v0(n).properties[0].argument.name], ['const [...', ']=x;', 'lex', n => v0(n).elements[0].argument.name], ['for(var ', ' of x);', 'bind', n => st(n).left.declarations[0].id.name], ['for(let ', ' in x);', 'lex', n => st(n).left.declarations[0].id.name], ['for(const ', ' of x);', 'lex', n => st(n).left.declarations[0].id.name], ['for(var ', '=1;;);', 'bind', n => st(n).init.declarations[0].id.name],
  ['function ', '(){}', 'bind', n => st(n).id.name], ['function f(', '){}', 'bind', n => st(n).params[0].name], ['function f(a,', '=1){}', 'bind', n => st(n).params[1].left.name], ['function f(...', '){}', 'bind', n => st(n).params[0].argument.name], ['(function ', '(){});', 'bind', n => es(n).id.name], ['(function(', '){});', 'bind', n => es(n).params[0].name], ['({m(', '){}});', 'bind', n => es(n).properties[0].value.params[0].name], ['({set a(', '){}});', 'bind', n => es(n).properties[0].value.params[0].name], ['(', ')=>1;', 'bind', n => es(n).params[0].name], ['(a,', '=1)=>1;', 'bind', n => es(n).params[1].left.name], ['', '=>1;', 'bind', n => es(n).params[0].name], ['async(', ')=>1;', 'bind', n => es(n).params[0].name, /^await$/], ['async ', '=>1;', 'bind', n => es(n).params[0].name, /^await$/], ['([', '])=>1;', 'bind', n => es(n).params[0].elements[0].name], ['({a:', '})=>1;', 'bind', n => es(n).params[0].properties[0].value.name], ['try{}catch(', '){}', 'bind', n => st(n).handler.param.name], ['class ', '{}', 'bind', n => st(n).id.name, null, 'strict'], ['(class ', '{});', 'bind', n => es(n).id.name, /^extends$/, 'strict'],
  ['', ':;', 'label', n => st(n).label.name, /^default$/], ['', ':for(;;)break;', 'label', n => st(n).label.name],
  ['a.', ';', 'prop', n => es(n).property.name], ['a.', '.b;', 'prop', n => es(n).object.property.name], ['({', ':1});', 'prop', n => es(n).properties[0].key.name], ['({', '(){}});', 'prop', n => es(n).properties[0].key.name], ['({get ', '(){}});', 'prop', n => es(n).properties[0].key.name], ['({set ', '(a){}});', 'prop', n => es(n).properties[0].key.name], ['({async ', '(){}});', 'prop', n => es(n).properties[0].key.name], ['({*', '(){}});', 'prop', n => es(n).properties[0].key.name], ['({async*', '(){}});', 'prop', n => es(n).properties[0].key.name], ['class A{', '(){}}', 'prop', n => st(n).body.body[0].key.name], ['class A{static ', '(){}}', 'prop', n => st(n).body.body[0].key.name, /^prototype$/], ['class A{get ', '(){}}', 'prop', n => st(n).body.body[0].key.name, /^constructor$/], ['class A{static*', '(){}}', 'prop', n => st(n).body.body[0].key.name, /^prototype$/], ['class A{async ', '(){}}', 'prop', n => st(n).body.body[0].key.name, /^constructor$/], ['class A{static set ', '(b){}}', 'prop', n => st(n).body.body[0].key.name, /^prototype$/], ['var {', ':a}=x;', 'prop', n => v0(n).properties[0].key.name], ['({', ':a}=x);', 'prop', n => es(n).left.properties[0].key.name], ['new a.', '();', 'prop', n => es(n).callee.property.name], ['a.', '++;', 'prop', n => es(n).argument.property.name], ['a.', '=1;', 'prop', n => es(n).left.property.name], ['a.', '`t`;', 'prop', n => es(n).tag.property.name],
  ['import ', ' from "a";', 'bind', n => st(n).specifiers[0].local.name, null, 'module'], ['import{a as ', '}from "a";', 'bind', n => st(n).specifiers[0].local.name, null, 'module'], ['import{', '}from "a";', 'bind', n => st(n).specifiers[0].local.name, null, 'module'], ['import*as ', ' from "a";', 'bind', n => st(n).specifiers[0].local.name, null, 'module'], ['import{', ' as b}from "a";', 'prop', n => st(n).specifiers[0].imported.name, null, 'module'], ['export{a as ', '}from "a";', 'prop', n => st(n).specifiers[0].exported.name, null, 'module'], ['export{', '}from "a";', 'prop', n => st(n).specifiers[0].local.name, null, 'module'], ['export{', ' as b}from "a";', 'prop', n => st(n).specifiers[0].local.name, null, 'module'], ['export{x as ', '};var x;', 'prop', n => st(n).specifiers[0].exported.name, null, 'module'], ['export var ', ';', 'bind', n => st(n).declaration.declarations[0].id.name, null, 'module'], ['export default function ', '(){}', 'bind', n => st(n).declaration.id.name, null, 'module'], ['export function ', '(){}', 'bind', n => st(n).declaration.id.name, null, 'module'],
];
// enclosing code: [text around the position, strict, yield, await, path to the inner body]
const inner = n => ({ body: n.body[0].body.body }), dir = n => ({ body: n.body.slice(1) });
const CTX = [
  ['', '', '', null], ['"use strict";', '', 's', dir], ['function F(){', '}', '', inner], ['function F(){"use strict";', '}', 's', n => dir(inner(n))], ['function*G(){', '}', 'y', inner], ['async function A(){', '}', 'a', inner], ['async function*B(){', '}', 'ya', inner], ['{', '}', '', n => ({ body: n.body[0].body })], ['class C{m(){', '}}', 's', n => ({ body: n.body[0].body.body[0].value.body.body })], ['class C{*m(){', '}}', 'sy', n => ({ body: n.body[0].body.body[0].value.body.body })], ['if(x){', '}', '', n => ({ body: n.body[0].consequent.body })], ['function*G(){function F(){', '}}', '', n => inner(inner(n))], ['async function A(){function F(){', '}}', '', n => inner(inner(n))],
];
// ok, reject or skip, for a word at a position
function verdict(word, escaped, p, c, goal) {
  const kind = p[2], module = goal === 'module', strict = module || c[2].includes('s') || p[5] === 'strict', y = c[2].includes('y'), a = c[2].includes('a');
  if (kind === 'prop') return p[4] && p[4].test(word) ? 'skip' : 'ok';
  if (p[4] && p[4].test(word)) return escaped ? (RES.has(word) || word === 'let' ? 'skip' : 'skip') : 'skip';
  if (RES.has(word)) {
    // unescaped operators and literals make other constructs out of some places
    if (!escaped && (kind === 'ref' || kind === 'target')) return /^(this|null|true|false|new|super|function|class|delete|typeof|void|import|in|instanceof)$/.test(word) ? 'skip' : kind === 'ref' && p[0] === '' ? 'skip' : 'reject';
    return 'reject';
  }
  const declOnly = /^(function |class |\(function |\(class |export default function |export function )/.test(p[0]);
  if (STR.has(word) && strict) return (word === 'let' || word === 'yield') && !escaped && (kind === 'ref' || kind === 'target' || kind === 'label') ? 'skip' : 'reject';
  if (word === 'yield' && y) return escaped || kind === 'bind' || kind === 'lex' || kind === 'label' ? (inParams(p) ? 'skip' : 'reject') : 'skip';
  if (word === 'await' && (module || a)) return escaped || kind === 'bind' || kind === 'lex' || kind === 'label' ? (inParams(p) ? 'skip' : 'reject') : 'skip';
  if (word === 'let') { if (kind === 'lex') return 'skip'; if (p[0] === '' || p[0] === 'for(') return escaped ? 'ok' : 'skip'; }
  if (word === 'async' && !escaped && p[0] === '' && /^(=>|`)/.test(p[1])) return 'ok';
  if ((word === 'eval' || word === 'arguments') && strict) return kind === 'bind' || kind === 'lex' || kind === 'target' ? 'reject' : 'ok';
  return 'ok';
}
// places inside a nested function, where yield/await get another meaning
const inParams = p => /function|m\(|set a\(|=>|^\(function|^async/.test(p[0] + p[1]);
function esc(d, w) { // spells one or more characters as escapes
  const cs = Array.from(w); let any = false;
  for (let i = 0; i < cs.length; i++) if (d.int(3) === 0 || (!any && i === cs.length - 1)) { const c = cs[i].codePointAt(0), h = c.toString(16), H = d.int(2) ? h : h.toUpperCase(); cs[i] = c < 0x10000 && d.int(2) ? '\\u' + H.padStart(4, '0') : `\\u{${'0'.repeat(d.int(3))}${H}}`; any = true; }
  return cs.join('');
}
let starts, conts;
function uniName(d) {
  if (!starts) { starts = U.list('start'); conts = U.list('cont').concat([0x200c, 0x200d, 0x24, 0x5f]); }
  let s = String.fromCodePoint(d.int(3) ? d.pick(starts) : d.pick([0x24, 0x5f, 0x61, 0x5a]));
  const n = d.int(5); for (let i = 0; i < n; i++) s += String.fromCodePoint(d.int(4) ? d.pick(conts) : d.pick([0x30, 0x39, 0x61, 0x200c, 0x200d]));
  return s;
}
const BADESC = ['\\u0030a', 'a\\u002d', '\\u{}', '\\u{110000}', 'a\\u{110000}', '\\ud83d\\ude00', 'a\\u{d800}', '\\u00', 'a\\u12', '\\u{61', '\\x61', '\\a', '\\', 'a\\', 'a\\ b', '\\u{20}', 'a\\u0020b', '\\u0022', 'a\\u{2f}', '\\u{ffffffff}', 'a\\u000a', '\\u{2028}', '\\U0061', '\\u {61}', '\\u{6 1}', '\\141', 'a\\u{30g}', '\\u200c', '\\u200da', '\\u2e2f', 'a\\u2E2F', '\\u00b7', '\\u{0300}a'];
const SOUPW = ['of', 'get', 'set', 'async', 'from', 'as', 'static', 'let', 'yield', 'await', 'eval', 'a', 'new', 'in', 'function', 'class', 'if', 'var', 'for', 'l\\u0065t', '\\u0061sync', 'st\\u0061tic', 'of', 'yi\\u0065ld', '\\u0069f', 'g\\u0065t', 'aw\\u0061it', 'target', '1', '"a"', '/r/'];
const SOUPP = ['=', '(', ')', '{', '}', '[', ']', ',', ':', ';', '=>', '.', '*', '...', '\n', '++', '`t`', '+'];

module.exports = {
  scale: ['names', 'variables', 'members'],
  plan(tier) {
    const thorough = tier === 'thorough', m = thorough ? 10 : 1;
    return [
      { name: 'code points', cases: 0x110000, gen(d, ctx, i) {
        const c = i;
        if (c < 0x80 || (c >= 0xd800 && c < 0xe000) || !U.old(c) || WS.has(c)) return null;
        return { t: 'cp', cp: c };
      } },
      { name: 'word x place x context', cases: 260000 * m, gen(d) {
        let p = d.int(POS.length), c = d.int(CTX.length); const module = POS[p][5] === 'module'; if (module || /^(import|export)/.test(POS[p][0])) c = 0;
        let w = d.weigh([[4, d.pick(RESERVED)], [3, d.pick(STRICT)], [4, d.pick(CONTEXTUAL)], [2, d.pick(near(d.pick([...RESERVED, ...STRICT, ...CONTEXTUAL])))]]);
        if (RES.has(w) && w.length < 3 && d.int(3)) w = d.pick(RESERVED);
        const escaped = d.chance(35);
        return { t: 'w', p, c, word: w, text: escaped ? esc(d, w) : w, goal: module || d.chance(12) ? 'module' : 'script' };
      } },
      { name: 'unicode names', cases: 90000 * m, gen(d) {
        let p = d.int(POS.length), c = d.int(CTX.length); const module = POS[p][5] === 'module'; if (module) c = 0;
        const w = uniName(d); return { t: 'w', p, c, word: w, text: d.chance(40) ? esc(d, w) : w, goal: module ? 'module' : 'script' };
      } },
      { name: 'malformed names', cases: BADESC.length * POS.length, gen(d, ctx, i) { const p = POS[Math.floor(i / BADESC.length)]; return { t: 'bad', src: p[0] + BADESC[i % BADESC.length] + p[1], goal: p[5] === 'module' ? 'module' : 'script' }; } },
      { name: 'contextual word soup', cases: 110000 * m, gen(d) { const n = d.range(2, 8), t = []; for (let i = 0; i < n; i++) t.push(d.int(5) < 3 ? d.pick(SOUPW) : d.pick(SOUPP)); let src = t.join(' '); src = d.weigh([[5, src], [1, `({${src}})`], [1, `class A{${src}}`], [1, `function*f(){${src}}`], [1, `async function f(){${src}}`], [1, `for(${src})`], [1, `"use strict";${src}`], [1, `(${src})`]]); return { t: 'soup', src, goal: d.chance(12) ? 'module' : 'script' }; } },
    ];
  },
  check(c, ctx) {
    if (c.t === 'soup') return differential(c, ctx);
    if (c.t === 'bad') { ctx.last = 'reject'; const q = ctx.g.parse(c.src, c.goal); return bad(q) || (q.k === 'ok' ? { sig: 'accepted malformed', msg: `malformed name accepted: ${c.src}` } : null); }
    if (c.t === 'cp') {
      ctx.last = 'ok';
      const ch = String.fromCodePoint(c.cp), h = c.cp.toString(16), e = c.cp < 0x10000 ? '\\u' + h.padStart(4, '0') : `\\u{${h}}`, s = U.idStart(c.cp), k = U.idCont(c.cp);
      for (const [text, name, want] of [[ch, ch, s], ['a' + ch, 'a' + ch, k], [e, ch, s], ['a' + e + 'b', 'a' + ch + 'b', k]]) {
        const q = ctx.g.parse(text + ';', 'script'), f = bad(q); if (f) return f;
        const got = q.k === 'ok';
        if (got !== want) return { sig: `code point ${want ? 'rejected' : 'accepted'}`, msg: `${JSON.stringify(text)} (U+${h}) ${want ? 'is a name but is rejected' : 'is not a name but is accepted'}` };
        if (got && (q.ast.body.length !== 1 || q.ast.body[0].expression.name !== name)) return { sig: 'code point name', msg: `name ${JSON.stringify(q.ast.body[0])} for ${JSON.stringify(text)}` };
      }
      return null;
    }
    const p = POS[c.p], x = CTX[c.c], escaped = c.text !== c.word, v = verdict(c.word, escaped, p, x, c.goal); ctx.last = v;
    ctx.count('word ' + v);
    if (v === 'skip') return null;
    const src = x[0] + p[0] + c.text + p[1] + x[1], q = ctx.g.parse(src, c.goal), f = bad(q); if (f) return f;
    if (v === 'reject') return q.k === 'ok' ? { sig: `accepted ${p[2]}`, msg: `${c.word} accepted as a ${p[2]}: ${src}` } : null;
    if (q.k !== 'ok') return { sig: `rejected ${p[2]}`, msg: `${c.word} rejected (${q.disp}): ${src}` };
    let got; try { got = p[3](x[3] ? x[3](q.ast) : q.ast); } catch (e) { got = undefined; }
    return got === c.word ? null : { sig: `name ${p[2]}`, msg: `name ${JSON.stringify(got)} expected ${JSON.stringify(c.word)}: ${src}` };
  },
  nontrivial: (c, ctx) => ctx.last === 'ok' || ctx.last === 'reject',
  rule: 'Every code point assigned by Unicode 8.0 as first and later character of a name, raw and escaped; reserved, strict-reserved, contextual and near-miss words and random Unicode names, spelled with and without escapes, in ~100 reference/target/binding/label/property places and 13 contexts, against a table of where each may stand; malformed escapes; contextual word soup judged by the reference. Non-trivial: a case with a verdict.',
  assumptions: ['Identifier characters are those of Unicode 8.0 (ES2019 leaves the version open); later characters get no verdict.'],
};
