'use strict';
const { Gen, render } = require('../gen.js');
const { mutateText } = require('../mutate.js');
const { E, differential, bad, tail } = require('../common.js');
const modes = ['space', 'tight', 'wild'];
// ---- places where a slash has one known meaning: R before a regular expression, D before a division
const R = ['', ';', '{}', '{a}', 'if(a)', 'if(a);else ', 'else?', 'while(a)', 'for(;;)', 'for(a in b)', 'for(a of b)', 'with(a)', 'do ', 'do;while(a)', 'l:', 'l:{}', 'a=', 'a+=', 'a,', '(', '[', 'f(', 'f(a,', '({a:', '!', '~', '+', '-', 'a+', 'a-', 'a*', 'a%', 'a**', 'a<', 'a>', 'a>>', 'a>>>', 'a<<', 'a&', 'a|', 'a^', 'a&&', 'a||', 'a==', 'a===', 'a!=', 'a!==', 'a<=', 'a>=', 'a?', 'a?b:', 'a=>', '()=>', '(a)=>', 'async a=>', 'async()=>', 'typeof ', 'void ', 'delete ', 'a in ', 'a instanceof ', 'throw ', '`${', 'function f(){}', 'function*f(){}', 'async function f(){}', 'class A{}', 'class A{m(){}}', 'switch(a){}', 'switch(a){case ', 'switch(a){case b:', 'switch(a){default:', 'try{}catch(a){}', 'try{}finally{}', 'var a;', 'var a=', 'let a=', 'const a=', 'var a=1,b=', 'if(a){}', 'if(a){}else{}', 'for(;;){}', 'while(a){}', 'for(', 'for(;', 'for(;;', 'for(a of ', 'for(a in ', 'for(var a=', 'if(', 'while(', 'do;while(', 'with(', 'switch(', '[...', 'f(...', '({...', '({[', '({a=', '[a=', '(a=', 'function f(a=', 'function f(){return ', 'function*f(){yield ', 'function*f(){yield*', 'async function f(){await ', 'a\n;', 'a;\n', 'debugger;', 'break?', '{a:', 'a:{}', '(a,', '({a(){', 'class A extends B{m(){', '({get a(){', 'function f(){', '()=>{', '=> {', 'new (', 'a[', 'x=a?b=c:', 'async()=>{await ', '({m(a=', 'class A{[', 'class A extends ', 'if(a)b;else ', '"use strict";', '++a;', 'a++;', 'a\n++b;', 'for(let a of ', 'for(const a in ', 'f`${', '{{}}', '{}{}', 'if(a){}\n', 'function f(){}\n', '({a}=', '[a]=', 'a=b=', 'a=>b=>', 'if(a)while(b)', 'l:if(a)', '`${a}${', 'do;while(a);', 'do{}while(a);', 'do{}while(a)'];
const D = ['a', 'a.b', 'a[0]', 'a()', '(a)', '[a]', '1', '1.5', '.5', '"s"', '`t`', '`${a}`', 'this', 'null', 'true', 'false', 'a++', 'a--', '/r/', '/r/g', '({})', '({a})', 'x={}', 'x={a:1}', 'x=[]', 'x=function(){}', 'x=function*(){}', 'x=async function(){}', 'x=class{}', 'x=class A extends B{}', '(function(){})', '(class{})', '(a=>b)', 'new a', 'new a()', 'new a.b', 'f`t`', 'a\n', 'a\n\n', 'x={}\n', '(a)\n', 'a++ ', 'of', 'get', 'set', 'async', 'let', 'static', 'yield', 'await', 'a.if', 'a.return', 'a.typeof', 'a.in', 'a.of', 'a.function', 'a.class', 'a.this', 'x=a', 'x=a?b:c', '!a', '-a', 'typeof a', '+(a)', 'a+b', 'a=>b', 'a=>(b)', 'a.b()', 'a()()', 'a()[0]', 'a[b][c]', 'super_', '$', '_', 'é', '\\u0061', 'a=b', 'x={a(){}}', 'x={get a(){}}', '({}).a', '[].a', '{}[a]', '{}(a)', 'if(a)b', 'if(a)(b)', 'if(a)[b]', 'while(a)b', 'for(;;)a', 'l:a', 'else_', 'a,b', 'a?{}', 'var a=b', 'var a={}', 'throw a', 'x=()=>({})', 'async(a)', 'async()', 'x=async', 'x=y=>z', '(()=>{})', '`a${b}c`', '`${{}}`', '`${`${a}`}`', 'return_', 'typeof_', 'new new a', 'new (a)', 'function f(){return a', 'function*f(){(yield)', 'async function f(){await a', 'function f(){return{}', 'function f(){return[]', 'function f(){return(a)', '[a,b]', '[{}]', '(({}))', 'case_', 'a\u00a0', 'a/**/', 'a/*\n*/', 'switch(a){case b', 'f({})', 'f(function(){})', 'f(a=>{})', 'a[{}]', 'a?b:{}', 'x=x={}', 'a+{}', 'a=class{}', '!{}', '!function(){}', '-{}', 'void function(){}', 'typeof class{}', 'a||{}', 'a,{}', 'x=a,function(){}', '[function(){}]', '[{}][0]'];
const close = p => { const st = []; let inT = false; const map = { '(': ')', '[': ']', '{': '}' }; let s = p.replace(/"[^"]*"|\/r\/g?|\/\*[^]*?\*\//g, ''); for (let i = 0; i < s.length; i++) { const c = s[i]; if (c === '`' ) { if (st[st.length - 1] === '`') st.pop(); else st.push('`'); } else if (c === '$' && s[i + 1] === '{') { st.push('}'); i++; } else if (map[c] && st[st.length - 1] !== '`') st.push(map[c]); else if (st.length && c === st[st.length - 1] && c !== '`') st.pop(); } return st.reverse().join(''); };
// the text that completes a place, after an operand
function finish(p) {
  if (p === 'else?' || p === 'break?' || p === '=> {') return null;
  const c = close(p); let t = c;
  if (/^(if|while|with)\($/.test(p) || p === 'switch(') t = p === 'switch(' ? '){}' : ');';
  else if (p === 'do;while(') t = ');';
  else if (p === 'for(') t = ';;);'; else if (p === 'for(;') t = ';);'; else if (p === 'for(;;') t = ');'; else if (/^for\((let |const )?a (of|in) $/.test(p)) t = ');'; else if (p === 'for(var a=') t = ';;);';
  else if (p === 'a?' ) t = ':b'; else if (p === 'a?{}') t = ':b';
  else if (p === '({[') t = ']:1})'; else if (p === '({a=') t = '}=z)'; else if (p === '[a=') t = ']=z'; else if (p === '(a=') t = ')=>1'; else if (p === 'function f(a=') t = '){}'; else if (p === '({m(a=') t = '){}})'; else if (p === 'class A{[') t = '](){}}'; else if (p === 'class A extends ') t = '{}';
  else if (/case (b)?$/.test(p)) t = ':}'; else if (p === 'do ') t = ';while(a)';
  else if (p === 'new (') t = ')';
  return t;
}
const WRAP = [x => x, x => x, x => `{${x}}`, x => `function g(){${x}}`, x => `(function(){${x}})`, x => `(()=>{${x}})`, x => `({m(){${x}}})`, x => `class Z{m(){${x}}}`, x => `x=\`\${()=>{${x}}}\``, x => `x=\`\${function(){${x}}}\``, x => `switch(q){case 1:${x}}`, x => `if(q){${x}}`, x => `try{${x}}catch(e){}`, x => `x=[{a:function(){${x}}}]`, x => `q;${x}`, x => `{}${x}`, x => `\`\${1}\`;${x}`];
const RX = ['/a/g', '/x/', '/}/', '/`/', '/[/]/', '/"/', '/\\//i', '/=/', '/${/', '/(/', '/{/', '/*/'.slice(0, 1) + '\\*/', '/[`}]/gi', "/'/", '/a b/', '/;/', '/é/', '/[\\]/]/', '/\\\\/', '/=>/', '/ /', '/a/yg', '/b/mig', '/c/uy', '/d/yusmig', '/e/si', '/f/ym', '/\\u{61}/ug'];
// ---- nested templates with known quasis
class T {
  constructor(d) { this.d = d; this.fuel = d.range(2, 12); this.q = []; }
  tpl() {
    const d = this.d, mine = []; this.q.push(mine); let s = '`';
    const n = this.fuel-- > 0 ? d.int(4) : 0;
    for (let i = 0; i <= n; i++) { let r = d.pick(['', 'a', '}', '{', '{}', '$', '$$', '"', "'", '/', '//', '/*', '\\`', '\\${', '}}', ')', '\n', '{${}'.slice(0, 1), '\\\\']); if (i < n && /\$$/.test(r)) r += ' '; mine.push(r); s += r; if (i < n) s += '${' + this.gap() + this.expr() + this.gap() + '}'; }
    return s + '`';
  }
  gap() { return this.d.chance(15) ? this.d.pick([' ', '\n', '/*}*/', '/*`*/', '//}\n', '//`\n', '/*${*/']) : ''; }
  expr() {
    const d = this.d; if (this.fuel-- <= 0) return d.pick(['a', '1', '{}', '"}"', '/}/', '/`/', "'${'"]);
    switch (d.int(16)) {
      case 0: return 'a'; case 1: case 2: case 3: return this.tpl(); case 4: return `{a:${this.expr()}}`; case 5: return `{m(){${this.stmts()}}}`; case 6: return `function(){${this.stmts()}}`; case 7: return `()=>{${this.stmts()}}`; case 8: return `class{m(){${this.stmts()}}}`;
      case 9: return `(${this.expr()})`; case 10: return `[${this.expr()},${this.expr()}]`; case 11: return `f${this.tpl()}`; case 12: return `a+(${this.expr()})`; case 13: return d.pick(['"}"', '/}/', '/[`}]/', "'`'", '"${"', '/${/']); case 14: return `{...${this.expr()}}`; case 15: return `{[${this.expr()}]:${this.expr()}}`;
    }
  }
  stmts() { const d = this.d; switch (d.int(7)) { case 0: return ''; case 1: return `return ${this.expr()}`; case 2: return `{${this.stmts()}}`; case 3: return `if(a){${this.stmts()}}else{${this.stmts()}}`; case 4: return `x=${this.expr()};${this.stmts()}`; case 5: return `for(;;){${this.stmts()}}`; case 6: return `x=${this.tpl()}`; } }
}
const isRegexTok = t => typeof t === 'string' && t[0] === '/' && t.length > 2;
function swapTree(n, dict) { // regular expressions become the names that stand for them, divisions multiplications
  if (Array.isArray(n)) return n.map(x => swapTree(x, dict));
  if (!n || typeof n !== 'object') return n;
  if (n.type === 'Literal' && n.regex) return { type: 'Identifier', name: dict.get(n.raw) || `(unknown regex ${n.raw})` };
  const o = {}; for (const k of Object.keys(n)) o[k] = swapTree(n[k], dict);
  if (n.type === 'BinaryExpression' && n.operator === '/') o.operator = '*';
  if (n.type === 'AssignmentExpression' && n.operator === '/=') o.operator = '*=';
  return o;
}
module.exports = {
  scale: ['regexes', 'quasis', 'nests', 'templates', 'operands'],
  plan(tier) {
    const m = tier === 'thorough' ? 12 : 1;
    const W = { regex: 50, leaf: 40, template: 8, binary: 30, exprStmt: 20 };
    return [
      { name: 'places', cases: 60000 * m, gen(d) {
        const isR = d.int(2), p = d.pick(isR ? R : D), f = finish(p); if (f === null) return null;
        // two slashes: one regular expression, or two divisions
        const body = isR ? d.pick(RX) : d.pick(['/b/c', '/b/g', '/ b/g', '/b /g', '/ b / g', '/=b', '/b']);
        if (!isR && /\/=/.test(body) && !/^(a|a\.b|a\[0\]|of|get|let|\$|_|é)$/.test(p)) return null;
        if (!isR && /[\w$]$|\u00e9$/.test(p) && !/^\//.test(body)) return null;
        const n = d.weigh([[3, 0], [3, 1], [2, 2], [1, 3]]); let s = p + body + f; for (let i = 0; i < n; i++) { const w = d.pick(WRAP); if (/^(let|static|yield)$|with\(/.test(p) && /class/.test(w(''))) continue; s = w(s); }
        return { t: 'place', src: s, re: isR ? body : null, p, body };
      } },
      { name: 'regex and division against names and products', cases: 90000 * m, gen(d) { const goal = d.int(5) ? 'script' : 'module', g = new Gen(d, { goal, fuel: 5 + d.int(40), w: W }); const ts = g.program(1, 3); if (!ts.some(isRegexTok) && !ts.includes('/') && !ts.includes('/=')) return null; return { t: 'swap', toks: ts.map(x => typeof x === 'string' ? x : x.nonl ? { nonl: 1 } : ';'), mode: d.int(2) ? 'space' : 'tight', goal }; } },
      { name: 'nested templates', cases: 60000 * m, gen(d) { const t = new T(d); const s = d.pick(['', 'x=', 'f', 'f(', '({a:', 'throw ', 'if(a)', 'new f', 'return_=']), x = t.tpl(); return { t: 'tpl', src: s + x + (s === 'f(' ? ')' : s === '({a:' ? '})' : ''), qs: t.q }; } },
      { name: 'programs', cases: 60000 * m, gen(d) { const goal = d.int(5) ? 'script' : 'module', g = new Gen(d, { goal, fuel: 5 + d.int(40), w: W }); return { t: 'diff', src: render(g.program(1, 3), d.pick(modes), d), goal }; } },
      { name: 'mutated', cases: 60000 * m, gen(d) { const k = d.int(3); let s; if (k === 0) { const t = new T(d); s = t.tpl(); } else if (k === 1) { const isR = d.int(2), p = d.pick(isR ? R : D); s = p + d.pick(RX) + (finish(p) || ''); } else s = render(new Gen(d, { fuel: 5 + d.int(15), w: W }).program(1, 2), 'tight'); return { t: 'diff', src: mutateText(d, s, 2), goal: 'script' }; } },
    ];
  },
  text: undefined,
  check(c, ctx) {
    if (c.t === 'diff') return differential(c, ctx);
    ctx.last = 'ok';
    if (c.t === 'swap') {
      const dict = new Map(), other = []; let k = 0;
      for (const x of c.toks) { if (x.nonl) { continue; } if (isRegexTok(x)) { if (!dict.has(x)) dict.set(x, 'R$' + k++); other.push(dict.get(x)); } else other.push(x === '/' ? '*' : x === '/=' ? '*=' : x); }
      const A = render(c.toks.filter(x => !x.nonl), c.mode), B = render(other, c.mode);
      const a = ctx.g.parse(A, c.goal), b = ctx.g.parse(B, c.goal); const f = bad(a) || bad(b); if (f) return f;
      if (b.k !== 'ok') { ctx.last = 'skip'; return null; } // names cannot stand there, or the generator slipped
      if (a.k !== 'ok') return { sig: 'rejected', msg: `rejected (${a.disp}): ${A}\nbut accepted: ${B}` };
      const d = E.diff(E.canon(b.ast), swapTree(E.canon(a.ast), dict));
      if (d) return { sig: 'tree:' + tail(d.path), msg: `${A}: ${E.showDiff(d, 'expected')}` };
      return null;
    }
    const q = ctx.g.parse(c.src, 'script'), f = bad(q); if (f) return f;
    if (q.k !== 'ok') return { sig: 'rejected', msg: `rejected (${q.disp}): ${c.src}` };
    if (c.t === 'place') {
      let re = 0, div = 0; E.walk(q.ast, n => { if (n.type === 'Literal' && n.regex) { if (n.raw === c.re && n.regex.pattern + '/' + n.regex.flags === c.re.slice(1)) re++; else if (n.raw !== '/r/' && n.raw !== '/r/g') re = -99; } if ((n.type === 'BinaryExpression' && n.operator === '/') || (n.type === 'AssignmentExpression' && n.operator === '/=')) div++; });
      const want = c.re ? 0 : (c.body.match(/\//g) || []).length;
      if (c.re ? re !== 1 || div !== 0 : re !== 0 || div !== want) return { sig: c.re ? 'regex expected' : 'division expected', msg: `${re} regular expressions and ${div} divisions in ${c.src}` };
      return null;
    }
    const got = []; E.walk(q.ast, n => { if (n.type === 'TemplateLiteral') got.push(n.quasis.map(x => x.value.raw)); });
    // the walk meets templates in a fixed order only up to nesting: compare as multisets
    const key = l => l.map(x => JSON.stringify(x)).sort().join('\n');
    return key(got) === key(c.qs) ? null : { sig: 'quasis', msg: `quasis ${JSON.stringify(got)} expected ${JSON.stringify(c.qs)} for ${c.src}` };
  },
  nontrivial: (c, ctx) => ctx.last === 'ok' && (c.t !== 'diff' || /[\/`]/.test(c.src)),
  rule: 'A slash after ~330 prefixes of known meaning inside up to 3 of 17 wrappers; generated programs compared with themselves after replacing regular expressions by names and / by *; nested templates with known quasis around objects, functions, classes, regexes and comments; programs and mutants judged by the reference. Non-trivial: accepted, with a slash or a template.',
  assumptions: ['Multiplication and division, and names and regular expressions, are interchangeable wherever the former are accepted.'],
};
