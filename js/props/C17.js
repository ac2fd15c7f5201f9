'use strict';
const { Gen, render } = require('../gen.js');
const { mutateTokens, mutateText, randTok } = require('../mutate.js');
const { bad, ref } = require('../common.js');
const { MID, BIG, HUGE } = require('../scale.js');
const { corpus } = require('../corpus.js');
const modes = ['space', 'tight', 'wild'];
const reLT = /\r\n|[\n\r\u2028\u2029]/;
// Offset (in code points) of a reported place, or a complaint
function place(src, line, col) {
  if (!(line >= 1)) return `line ${line}`;
  if (!(col >= 1)) return `column ${col}`;
  const re = /\r\n|[\n\r\u2028\u2029]/g; let from = 0, m;
  for (let l = 1; l < line; l++) { m = re.exec(src); if (!m) return `line ${line} of a source of ${l} lines`; from = re.lastIndex; }
  m = re.exec(src); const off = Array.from(src.slice(0, from)).length, len = Array.from(src.slice(from, m ? m.index : src.length)).length;
  if (col > len + 1) return `column ${col} of a line of ${len} characters`;
  return off + col - 1;
}
// Where the text ends if the blanks and comments at its end are left out
function textEnd(s) {
  const n = s.length, to = new Uint8Array(n + 1); let first = n; to[n] = 1;
  const unit = /\s|\/\/.*|\/\*[^]*?\*\//y;
  const from = Math.max(0, n - 3000);
  for (let i = n - 1; i >= from; i--) { const c = s.charCodeAt(i); if (c !== 47 && c > 32 && c < 127) continue; unit.lastIndex = i; if (unit.test(s) && to[unit.lastIndex]) { to[i] = 1; first = i; } }
  if (from && first <= from + 1) return 0; // too long to tell
  return Array.from(s.slice(0, first)).length;
}
const LEX = /^Invalid(OrUnexpectedToken|UnicodeEscapeSequence)/;
// errors about a construct as a whole, reported at a place inside it that a longer text may still make right
const EARLY = /^(InvalidLhs|InvalidDestructuringTarget|ParamAfterRest|UnexpectedStrictReserved|IllegalBreak|NoIterationStatement)/;
// `{a=` may make the reference parser stop at the end of the object
const SHORT = /[{,][^{},]*[^=!<>{},]=[^=>]/;
const JUNK = ['', 'a', ')', '}', ']', ';', '"', '\'', '`', '/', '/*', '*/', '//', '1a', '=>', '=1', '\\', '@', '#', 'if', '(', '{', '[', 'a b', '=>{}', ' in a', ' of a', ')=>a', '}=a', ']=a', '"use strict"', 'function', '...', ',', ':', '=', '\0', '}`', '${', 'from "a"', 'yield', 'await'];
const BLANK = ['', ' ', '\t', '//x', '/**/', '/* a */', '//"', '/*\'*/', '//😀', '/*é*/', '//*/', '/*//*/', '\u00a0', '\ufeff'];
const NLS = ['\n', '\n', '\r', '\r\n', '\u2028', '\u2029'];
// Errors whose kind and place are known: ¦ marks the place (¦...¦ the range it may lie in)
const KNOWN = ['IllegalReturn ¦return 1', 'IllegalReturn ¦return;', 'IllegalReturn ¦return', 'IllegalReturn if(a)¦return', 'IllegalReturn a=>{};¦return', 'IllegalReturn function f(){return}¦return', 'IllegalReturn ({m(){return}});¦return a', 'IllegalReturn class A{m(){}}¦return',
  'IllegalBreak ¦break', 'IllegalBreak ¦break;', 'IllegalBreak for(;;){}¦break', 'IllegalBreak for(;;){(function(){¦break})}', 'IllegalBreak while(a){()=>{¦break;}}', 'IllegalBreak switch(a){case b:class A{m(){¦break}}}', 'IllegalBreak l:{¦break}', 'NoIterationStatement ¦continue', 'NoIterationStatement switch(a){case b:¦continue}', 'NoIterationStatement do{x={m(){¦continue;}}}while(a)', 'NoIterationStatement l:{¦continue;}',
  'UnknownLabel("x") break ¦x', 'UnknownLabel("x") for(;;)break ¦x;', 'UnknownLabel("x") x:;break ¦x', 'UnknownLabel("x") x:for(;;){(function(){break ¦x})}', 'UnknownLabel("x") while(a){continue ¦x}', 'UnknownLabel("x") x:for(;;);for(;;)continue ¦x', 'UnknownLabel("é") break ¦é', 'IllegalContinue("x") x:continue ¦x', 'IllegalContinue("x") x:{for(;;)continue ¦x}', 'IllegalContinue("x") x:if(a){continue ¦x;}',
  'StrictWith (function(){"use strict";¦with(a);})', 'StrictWith class A{m(){¦with(a)b}}', 'MultipleDefaultsInSwitch switch(a){default:¦default:}', 'MultipleDefaultsInSwitch switch(a){default:b;case c:¦default:d}', 'NewlineAfterThrow throw¦\n¦a', 'NewlineAfterThrow throw¦/*\n*/¦a;',
  'InvalidLhsInAssignment ¦1¦=2', 'InvalidLhsInAssignment ¦a+b¦=2', 'InvalidLhsInAssignment ¦f()¦=2', 'InvalidLhsInAssignment ¦(a,b)¦=2', 'InvalidLhsInAssignment ¦a+b¦+=2', 'InvalidLhsInAssignment x=¦f()¦*=2', 'InvalidLhsInAssignment ¦[a]¦+=2', 'InvalidLhsInAssignment ¦this¦=1', 'InvalidLhsInAssignment [¦f()]=b', 'InvalidLhsInAssignment [a,¦1]=b', 'InvalidLhsInAssignment ({a:¦f()}=b)',
  'InvalidLhsInPostfixOp ¦1¦++', 'InvalidLhsInPostfixOp ¦f()¦--', 'InvalidLhsInPostfixOp a+¦f()¦++', 'InvalidLhsInPrefixOp ++¦1', 'InvalidLhsInPrefixOp --¦f()', 'InvalidLhsInPrefixOp -++¦f()', 'InvalidLhsInFor for(¦f() ¦of b);', 'InvalidLhsInFor for(¦1 ¦in b);', 'InvalidLhsInFor for(¦a=1 ¦of b);', 'MissingInitializer let [a]¦;', 'MissingInitializer const {a}¦;', 'MissingInitializer var a,{b}¦;', 'MissingInitializer var [a]¦,b;',
  'MissingFunctionName function¦(){}', 'MissingFunctionName async function¦(){}', 'MissingFunctionName function*¦(){}', 'UnexpectedToken -a¦**b', 'UnexpectedToken !a¦**b', 'UnexpectedToken a ¦b', 'UnexpectedToken if(a)¦class A{}', 'UnexpectedToken while(a)¦const b=1', 'UnexpectedToken new.¦a', 'UnexpectedToken var a¦.b', 'UnexpectedToken var ¦if', 'UnexpectedToken try{}¦a', 'UnexpectedToken do;¦a', 'UnexpectedToken for(;¦)a', 'UnexpectedToken function f(a,...b¦,c){}', 'UnexpectedToken ({a¦=1})', 'UnexpectedToken f({a¦=1})', 'UnexpectedToken a=>{}¦()', 'UnexpectedToken a¦\n¦=>b', 'UnexpectedToken x={a b¦:1}'.replace('a b¦', 'a ¦b'), 'UnexpectedToken class A{a¦,b(){}}', 'UnexpectedToken (a,b)¦{}', 'UnexpectedToken [a ¦b]', 'UnexpectedToken f(a ¦b)', 'UnexpectedToken a.¦1b'.replace('1b', '[b]'), 'UnexpectedToken case_ ¦a:', 'UnexpectedToken `${a ¦b}`',
  'InvalidOrUnexpectedToken ¦#', 'InvalidOrUnexpectedToken a=¦@', 'InvalidOrUnexpectedToken ¦1¦a', 'InvalidOrUnexpectedToken a=¦0x¦g', 'InvalidOrUnexpectedToken a=¦"b¦\n"', 'InvalidOrUnexpectedToken a=¦/b¦\n', 'InvalidUnicodeEscapeSequence ¦"\\u{110000¦}"', 'InvalidUnicodeEscapeSequence ¦"\\u00¦"', 'InvalidUnicodeEscapeSequence ¦\\u{¦}'];
const AROUND = [x => x, x => x, x => x, x => `{${x}\n}`, x => `if(z){${x}\n}`, x => `try{${x}\n}catch(e){}`, x => `else_;\n${x}`, x => `q:{\n${x}\n}`, x => `{{}\n${x}\n}`, x => `if(z);else{${x}\n}`, x => `try{}finally{\u2028${x}\n}`, x => `'é😀';\r\n/*\n\r\n*/${x}`, x => `\`\n\`;${x}`, x => `"\\\n";${x}`];
// Places where an operand (or: a name that is a keyword, a number or a string) cannot stand, so that the error is about that token
const AFTER = ['a ¦', '1 ¦', '"a" ¦', '({}) ¦', 'this ¦', 'null ¦', '/r/ ¦', '`t` ¦', '`${a}b` ¦', 'a.b ¦', 'a[b] ¦', 'a() ¦', 'new a ¦', 'new a() ¦', 'a++ ¦', 'a-- ¦', '-a ¦', '!a ¦', 'typeof a ¦', 'a+b ¦', 'a=b ¦', 'a?b:c ¦', 'x=>y ¦', 'x=function(){} ¦', 'x=class{} ¦', 'x=[] ¦', 'a,b ¦', '[1 ¦]', '[a,b ¦]', 'f(1 ¦)', 'f(a,b ¦)', '(a ¦)', '(a,b ¦)', '({a:b ¦})', '({[a ¦]:b})', '({a(){} ¦})', '({a ¦})', 'var a ¦', 'var a=1 ¦', 'let a=1,b ¦', 'const a=b ¦', 'if(a ¦);', 'while(a ¦);', 'do;while(a ¦)', 'with(a ¦);', 'switch(a ¦){}', 'switch(a){case b ¦:}', 'for(a ¦;;);', 'for(;a ¦;);', 'for(;;a ¦);', 'for(a in b ¦);', 'for(a of b ¦);', 'for(var a=1 ¦;;);', 'throw a ¦', 'a?b ¦', 'a[b ¦]', '`${a ¦}`', '`a${b}c${d ¦}`', 'new a(b ¦)', 'f`${a ¦}`', 'function f(){return a ¦}', 'function*f(){yield a ¦}', 'async function f(){await a ¦}', 'if ¦', 'while ¦', 'switch ¦', 'with ¦', 'for ¦', 'try ¦', 'do;while ¦', 'try{}catch ¦', 'try{}finally ¦', 'switch(a) ¦', 'switch(a){¦}', 'debugger ¦', 'function f(a ¦){}', 'function f() ¦', 'x={m() ¦}', 'class A extends B ¦', 'class A ¦', 'x=function a ¦', 'class A{"a" ¦(){}}', 'class A{a ¦(){}}', 'class A{[a ¦](){}}', 'x={"a" ¦}', 'x={1 ¦}', 'for(;;){break;a ¦}', 'l:for(;;){break l ¦}', 'l:for(;;){continue l ¦}', 'var [a ¦]=b', 'var {a ¦}=b', 'var {a:b ¦}=c', 'var {[a] ¦}=c'];
const NAME = ['var ¦', 'let a,¦', 'const ¦', 'var a,¦', 'var [¦]=a', 'var {a:¦}=b', 'var [...¦]=a', 'class ¦{}', 'function ¦(){}', 'function f(¦){}', 'function f(a,¦){}', 'function f(...¦){}', 'function*¦(){}', 'async function ¦(){}', 'try{}catch(¦){}', '({m(¦){}})', '({set a(¦){}})', 'class A{m(a,¦){}}', 'for(var ¦;;);', 'for(const ¦ of a);', 'M:import ¦', 'M:import*as ¦ from "a"', 'M:import a,¦ from "b"', 'M:export ¦'];
const LONG = ['a'.repeat(41), 'ab_$'.repeat(30), 'éλ中'.repeat(40), '𝒜'.repeat(50), 'x'.repeat(300), 'q9'.repeat(2500)];
const WORDS = ['if', 'else', 'this', 'null', 'true', 'false', 'typeof', 'void', 'delete', 'while', 'do', 'try', 'throw', 'return', 'super', 'with', 'for', 'continue', 'break', 'debugger', 'enum', 'var', 'switch', 'catch', 'finally'];
const LITS = ['1', '0', '0x1F', '0b101', '0o17', '1.5e3', '.5e-7', '1e21', '5.', '"b"', "'c'", '"a b"', '""', '"\\u{61}\\n"', '"é😀"', "'\\x41\\'\"'", '1' + '0'.repeat(60), '0x' + 'f'.repeat(400), '0.' + '3'.repeat(300), '"' + 'b '.repeat(40) + '"', "'" + 'é😀'.repeat(100) + "'", '"' + '\\\\'.repeat(60) + '"', '"' + 'z'.repeat(4000) + '"'];
const NAMES = ['b', 'bb', '$', '_', 'é', 'undefined', 'constructor', 'ifx', 'In', 'typeo'];
const known = (d, host) => { const op = !NAME.includes(host); return d.weigh([[4, d.pick(LITS)], [3, d.pick(WORDS)], [op ? 3 : 0, d.pick(NAMES)], [op ? 3 : 0, d.pick(LONG)]]); };
module.exports = {
  plan(tier) {
    const m = tier === 'thorough' ? 12 : 1;
    const prog = d => { const goal = d.int(4) ? 'script' : 'module', g = new Gen(d, { goal, fuel: 4 + d.int(25) }); return { ts: g.program(1, 3), goal }; };
    const more = d => ({ junk: d.list(0, 3, () => d.pick(JUNK) + d.pick(['', ' ', '\n'])).join(''), pre: d.list(1, 4, () => d.pick(BLANK) + d.pick(NLS)).join(''), here: d.list(1, 2, () => d.pick([' ', '\t', '/**/', '/*é*/', '/*😀*/', '\u00a0', '/* x */'])).join('') });
    const ok = c => /<!--|-->/.test(c.src) ? null : c;
    return [
      { name: 'errors of known kind and place', cases: 40000 * m, gen(d) { const goal = d.int(4) ? 'script' : 'module', k = d.pick(KNOWN), i = k.indexOf(' '); let s = k.slice(i + 1); for (let n = d.int(3); n >= 0; n--) s = d.pick(AROUND)(s); if (d.chance(70)) { const g = new Gen(d, { goal, fuel: 3 + d.int(15) }); s = render(g.program(1, 2), d.pick(modes), d) + '\n;' + s; } s += d.pick(['', ';', '\n', '\n;a', ';b']); return ok(Object.assign({ src: s.replace(/¦/g, ''), marked: s, kind: k.slice(0, i), goal }, more(d))); } },
      { name: 'a known token where none can stand', cases: 60000 * m, gen(d) {
        let s = d.pick(d.int(3) ? AFTER : NAME), goal = d.int(4) ? 'script' : 'module'; const name = known(d, s), mod = s.startsWith('M:'); if (mod) { s = s.slice(2); goal = 'module'; if (/^import ¦|^export/.test(s) && /^["']|^var$/.test(name)) return null; if (s === 'import a,¦ from "b"' && name[0] === '"') return null; }
        if (s === '({a ¦})' || s === 'var {a ¦}=b') if (!/^[\d."']/.test(name) && !WORDS.includes(name)) return null;
        const i = s.indexOf('¦'); s = s.slice(0, i) + '¦' + name + s.slice(i + 1); if (!mod) for (let n = d.int(3); n > 0; n--) s = d.pick(AROUND)(s); if (goal === 'module' && /with/.test(s)) return null;
        if (d.int(3) === 0) s = d.pick(['', ' ', '/**/ ']) + d.pick(BLANK) + '\n' + s; s += d.pick(['', ' ', '\n', '\n;a', ';b', ' b', ' "c"', '\n}']);
        return ok(Object.assign({ src: s.replace('¦', ''), marked: s, kind: 'UnexpectedToken', name, goal }, more(d))); } },
      { name: 'far away', cases: 4000 * m, gen(d) {
        const goal = d.int(4) ? 'script' : 'module', size = d.pick([...MID, ...BIG, ...(d.int(12) ? [] : HUGE)]) + d.range(-2, 1), c = more(d), near = d.int(2);
        let s; if (d.int(3)) { const k = d.pick(KNOWN), i = k.indexOf(' '); s = k.slice(i + 1); c.marked = s; c.kind = k.slice(0, i); s = s.replace(/¦/g, ''); } else { const g = new Gen(d, { goal, fuel: 3 + d.int(12) }); s = render(mutateTokens(d, g.program(1, 2), d.pick([1, 1, 3])), d.pick(modes), d); }
        if (near) c.here = d.list(1, 2, () => d.pick([' ', '\t', '/**/', '/*é*/', '/*😀*/', ' '])).join('').repeat(size); else c.pre = d.list(1, 2, () => d.pick([...BLANK, s.includes('use') ? '' : 'b;']) + d.pick(NLS)).join('').repeat(size) + '\n';
        if (c.marked && d.int(2)) { c.marked = (near ? c.here : c.pre) + c.marked; s = (near ? c.here : c.pre) + s; }
        return ok(Object.assign({ src: s, goal }, c)); } },
      { name: 'edited tokens', cases: 120000 * m, gen(d) { const { ts, goal } = prog(d); return ok(Object.assign({ src: render(mutateTokens(d, ts, d.pick([1, 1, 3])), d.pick(modes), d), goal }, more(d))); } },
      { name: 'edited characters', cases: 60000 * m, gen(d) { const { ts, goal } = prog(d); return ok(Object.assign({ src: mutateText(d, render(ts, d.pick(modes), d), 2), goal }, more(d))); } },
      { name: 'cut programs', cases: 30000 * m, gen(d) { const { ts, goal } = prog(d), cs = Array.from(render(ts, d.pick(modes), d)); return ok(Object.assign({ src: cs.slice(0, d.int(cs.length + 1)).join(''), goal }, more(d))); } },
      { name: 'a foreign token in a program', cases: 60000 * m, gen(d) { const { ts, goal } = prog(d), L = ts.map(t => t.semi ? ';' : t); L.splice(d.int(L.length + 1), 0, randTok(d)); return ok(Object.assign({ src: render(L, d.pick(modes), d), goal }, more(d))); } },
      { name: 'real code, edited', cases: 30000 * m, gen(d) { const C = corpus().stmts; if (!C.length) return null; return ok(Object.assign({ src: mutateText(d, d.list(1, 3, () => d.pick(C)).join('\n'), 2).replace(/[\ud800-\udfff]/g, 'u'), goal: 'script' }, more(d))); } },
    ];
  },
  check(c, ctx) {
    const g = ctx.g, src = c.src, q = g.parse(src, c.goal), x = bad(q); ctx.kind = false; if (x) return x;
    if (q.k === 'ok' && c.marked !== undefined && ref(src, c.goal).status === 'reject') return { sig: 'known error accepted', msg: 'accepted, not ' + c.kind };
    if (q.k === 'ok') { ctx.count('accepted'); return null; }
    ctx.kind = true; ctx.count(q.type.replace(/\([^]*/, ''));
    const kind = q.type.replace(/\([^]*/, '');
    const at = place(src, q.line, q.col);
    if (typeof at === 'string') return { sig: 'place:' + kind + ':' + at.replace(/\d+/g, 'n'), msg: `the error is placed at ${at}` };
    if (!q.disp || !q.disp.trim()) return { sig: 'message', msg: 'empty message' };
    if (c.marked !== undefined) {
      const a = Array.from(c.marked), lo = a.indexOf('¦'), hi0 = a.lastIndexOf('¦'), hi = hi0 > lo ? hi0 - 1 : lo;
      if (ref(src.replace(/¦/g, ''), c.goal).status !== 'reject') { ctx.count('known error, but not to the reference'); return null; }
      if (c.kind.includes('(') ? q.type !== c.kind : kind !== c.kind) return { sig: 'kind:' + c.kind + '/' + q.type, msg: `${q.disp} (${q.type}), not ${c.kind}` };
      if (at < lo || at > hi) return { sig: 'known place:' + c.kind, msg: `${q.disp} at ${at}, not ${lo}${hi > lo ? '..' + hi : ''}` };
    }
    const cs = Array.from(src), rest = cs.slice(at).join('');
    if (c.name !== undefined && q.disp !== 'Unexpected token ' + c.name) return { sig: 'not named:' + q.type.slice(0, 30), msg: `${JSON.stringify(q.disp)} does not name the token ${c.name}` };
    if (kind === 'UnexpectedToken') { const n = q.disp.replace(/^Unexpected token /, ''); if (!n || !rest.startsWith(n)) return { sig: 'name', msg: `${JSON.stringify(q.disp)} where the text is ${JSON.stringify(rest.slice(0, 20))}` };
      if (/^[\p{ID_Start}$_\\]/u.test(n) && /^[\p{ID_Continue}$\\\u200c\u200d]/u.test(rest.slice(n.length)) || /^["']/.test(n) && (n.length < 2 || n[n.length - 1] !== n[0]) || /^\.?\d/.test(n) && /^\d/.test(rest.slice(n.length))) return { sig: 'part of a token', msg: `${JSON.stringify(q.disp.slice(0, 60))} names only a part of ${JSON.stringify(rest.slice(0, 60))}` }; }
    if (kind === 'UnexpectedEOS' && at !== cs.length) return { sig: 'eos place', msg: `the end of input is reported at ${at} of ${cs.length}` };
    // what stands before the reported place is not wrong in itself
    if (!LEX.test(kind)) {
      const cut = cs.slice(0, at).join(''), r = g.parse(cut, c.goal), y = bad(r); if (y) return y;
      if (r.k !== 'ok') { const e = place(cut, r.line, r.col); if (typeof e === 'string') return { sig: 'place', msg: e }; if (!EARLY.test(r.type) && e < textEnd(cut)) if (!(r.type === 'UnexpectedToken("=")' && Array.from(cut)[e] === '=')) return { sig: 'late:' + kind + '<' + r.type.replace(/\([^]*/, ''), msg: `the error "${q.disp}" is reported at ${at}, but the text before that is rejected at ${e}: ${r.disp}` }; }
    }
    // what follows the line does not matter
    if (kind !== 'UnexpectedEOS' && at < cs.length && !src.endsWith('\\')) {
      const whole = EARLY.test(kind) || /[`\\\u2028\u2029]|\/\*/.test(src), m = whole ? null : reLT.exec(rest), head = cs.slice(0, at).join('') + (m ? rest.slice(0, m.index) : rest);
      const s2 = head + '\n' + c.junk, r = g.parse(s2, c.goal), y = bad(r); if (y) return y;
      // (the token after the last one may have been looked at)
      const later = r.k === 'ok' || r.line > q.line, seen = later && (r.k !== 'ok' && LEX.test(r.type) || EARLY.test(kind) || rest[0] === '.' || kind === 'UnexpectedToken' && /^Unexpected token (=|[\p{L}\\$_][^]*)$/u.test(q.disp));
      if (!seen) if (r.k === 'ok' || r.line !== q.line || r.col !== q.col || r.type !== q.type) return { sig: 'suffix:' + kind + '/' + (r.type || 'ok').replace(/\([^]*/, ''), msg: `with ${JSON.stringify(s2.slice(-30))} in place of what follows: ${r.k === 'ok' ? 'accepted' : r.disp + ' at ' + r.line + ':' + r.col}, not ${q.disp} at ${q.line}:${q.col}` };
    }
    // compare with the place where the reference parser stops
    const v = /\\|\/\*|\/\//.test(src) ? { status: 'skip' } : ref(src, c.goal);
    if (v.status === 'reject' && v.pos !== undefined && /^Unexpected token/.test(v.msg)) {
      const p = Array.from(src.slice(0, v.pos)).length;
      if (p < at ? !SHORT.test(src) && !/^([).,(=\/]|let\b|asyn|awai)/.test(cs.slice(p, p + 4).join('')) && (kind === 'UnexpectedToken' || kind === 'UnexpectedEOS' || kind === 'UnexpectedTemplateString') : p > at ? kind === 'UnexpectedToken' && !/^Unexpected token (=>?|\/|[a-z\\][^]*)$/.test(q.disp) : 0) return { sig: `ref:${p < at ? 'late' : 'early'}:` + kind, msg: `the reference parser stops at ${p}, giron at ${at}: ${q.disp}` };
      if (p === at) ctx.count('same place as the reference');
    }
    // lines before only move the line; blanks before on the first line only move the column
    if (c.pre.endsWith('\r') && src[0] === '\n') return null;
    const n = c.pre.split(reLT).length - 1, r = g.parse(c.pre + src, c.goal), y = bad(r); if (y) return y;
    if (r.k === 'ok' || r.line !== q.line + n || r.col !== q.col || r.type !== q.type) return { sig: 'prefix', msg: `after ${n} lines: ${r.k === 'ok' ? 'accepted' : r.disp + ' at ' + r.line + ':' + r.col}, not ${q.disp} at ${q.line + n}:${q.col}` };
    const w = Array.from(c.here).length, r2 = g.parse(c.here + src, c.goal), y2 = bad(r2); if (y2) return y2;
    const col = q.line === 1 ? q.col + w : q.col;
    if (r2.k === 'ok' || r2.line !== q.line || r2.col !== col || r2.type !== q.type) return { sig: 'shift', msg: `after ${JSON.stringify(c.here)}: ${r2.k === 'ok' ? 'accepted' : r2.disp + ' at ' + r2.line + ':' + r2.col}, not ${q.disp} at ${q.line}:${col}` };
    return null;
  },
  nontrivial: (c, ctx) => ctx.kind,
  rule: 'Faults of known kind, place and name (' + KNOWN.length + ' faults; literals, words and long tokens in ' + (AFTER.length + NAME.length) + ' places where none can stand); edited, cut and spliced generated and real programs that giron rejects. The reported place must exist, hold the token the message names, not be preceded by an earlier error, not depend on the lines that follow, and move exactly with lines and blanks put before. Non-trivial: the source is rejected.',
};
