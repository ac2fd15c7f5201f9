'use strict';
const { ref, differential, bad } = require('../common.js');
const { Gen, render } = require('../gen.js');
// Expressions as [text, level, kind]. level: 3 left-hand side, 2 unary/update, 1 binary, 0 lower.
// kind: id, member, cover (array/object literal), other
class X {
  constructor(d) { this.d = d; this.f = d.range(0, 5); }
  sub() { const r = this.any(); return r[3] || /[\[{,]a=1/.test(r[0]) ? 'a' : r[0]; }
  lhs() { for (;;) { const r = this.any(); if (r[1] === 3) return r[0]; if (r[1] < 3) return '(' + r[0] + ')'; } }
  id() { return this.d.weigh([[10, this.d.pick(['a', 'b', 'x', 'y'])], [3, this.d.pick(['of', 'get', 'set', 'async', 'from', 'as', 'target', 'é', '\\u0061', 'undefined', '$', 'letx', 'inx', 'yield_'])]]); }
  any() {
    const d = this.d;
    if (this.f-- <= 0) return [this.id(), 3, 'id'];
    return d.weigh([
      [4, () => [this.id(), 3, 'id']],
      [5, () => [this.obj() + '.' + d.pick(['a', 'b', 'if', 'of', 'get', 'new', 'await', 'let']), 3, 'member']],
      [4, () => [this.obj() + '[' + this.sub() + ']', 3, 'member']],
      [2, () => [this.obj() + '(' + (d.int(2) ? this.sub() : '') + ')', 3, 'other']],
      [1, () => [this.obj() + '`t`', 3, 'other']],
      [1, () => ['new ' + d.pick(['a', 'a.b', 'a[b]', '(a())', 'this.a', 'new a']), 3, 'other']],
      [1, () => ['new ' + d.pick(['a', 'a.b', '(a)']) + '()', 3, 'other']],
      [1, () => ['new a().b', 3, 'member']], [1, () => ['new a()[b]', 3, 'member']], [1, () => ['new a().b()', 3, 'other']],
      [1, () => ['super.a', 3, 'member', 'm']], [1, () => ['super[a]', 3, 'member', 'm']], [1, () => ['super.a()', 3, 'other', 'm']],
      [1, () => ['new.target', 3, 'other', 'f']], [1, () => ['new.target.a', 3, 'member', 'f']],
      [2, () => [d.pick(['this', 'a``', 'a.b``', 'a`${b}`', '(a)()', 'a.b()', 'a[b]()', 'a()()', 'async()', 'async(a)', '(a,b)()', 'new(a)', 'new a(b).c()', 'new new a()()', 'function(){}()', 'a(...b)']), 3, 'other']],
      [3, () => [d.pick(['1', '"s"', 'null', 'true', 'false', '/r/', '/r/g', '`t`', '`${a}`', '1.5', "''", '.5', '0x1']), 3, 'other']],
      [2, () => ['[' + d.pick(['', 'a', 'a,b', '...a', ',a', 'a=1', 'a.b', '[a]', '{a}', this.sub()]) + ']', 3, 'cover']],
      [2, () => ['{' + d.pick(['', 'a', 'a:b', '...a', 'a,b', 'a=1', 'a:b.c', 'a:[b]', 'a:{b}', 'a:' + this.sub()]) + '}', 3, 'cover']],
      [1, () => [d.pick(['function(){}', 'function g(){}', 'class{}', 'class A{}', 'async function(){}', 'function*(){}', '{a(){}}', '{get a(){}}', '[1]', '{a:1}', '[a()]', '{a:b()}', '[...a,b]', '{...a,b}', '[a+b]']), 3, 'other2']],
      [1, () => [d.pick(['!', '-', '+', '~', 'typeof ', 'void ', 'delete ']) + this.lhsText(), 2, 'other']],
      [1, () => [d.pick(['++', '--']) + d.pick(['a', 'a.b', 'a[b]']), 2, 'other']], [1, () => [d.pick(['a', 'a.b', 'a[b]']) + d.pick(['++', '--']), 2, 'other']],
      [2, () => ['await ' + d.pick(['a', 'a.b', 'a[b]', 'a()', '[a]', '{a}', 'this', '(a)', 'await a', '!a', 'new a', 'async()']), 2, 'other', 'a']],
      [3, () => [d.pick(['yield', 'yield a', 'yield*a', 'yield*a.b', 'yield a.b', 'yield[a]', 'yield{a}', 'yield*[a]', 'yield(a)', 'yield yield', 'yield yield*a', 'yield a=b']), 0, 'other', 'g']],
      [1, () => [d.pick(['a+b', 'a+b.c', 'a&&b.c', 'a||[b]', 'a in b', 'a in b.c', 'a!=b', 'a===b', 'a!==b', 'a<=b', 'a>=b', 'a>b', 'a<<b', 'a>>>b', 'a-b', 'a%b', 'a^b', 'a&b', 'a&&b', 'a||b', 'a**b', 'a<b', 'a instanceof b', 'a==b', 'a>>b', 'a|b', 'a*b', 'a/b']), 1, 'other']],
      [1, () => [d.pick(['a?b:c', 'a?b:c.d', 'a?b:[c]', 'a=b', 'a.b=c.d', 'a**=b', 'a>>>=b', '(a,b)=>c', 'a=>b.c', 'a=>[b]', 'async(a)=>b.c', '[a]=[b]', '{a}={b}', 'a=[b]', 'a+=b', 'a=>b', '()=>{}', 'async a=>b', 'async()=>{}', '[a]=b', '{a}=b', 'a=b=c']), 0, 'other']],
      [1, () => [d.pick(['a,b', 'a,b.c', '1,a', 'a,[b]', 'a,{b}', 'a,(b)', 'a,b,c']), -1, 'other']],
    ])();
  }
  lhsText() { return this.d.pick(['a', 'a.b', 'a()', '(a)', '1', 'this']); }
  obj() { const d = this.d; if (d.chance(60)) return d.pick(['a', 'b', 'this', 'f()', '(a)', '[]', '"s"', 'a.b', '`t`', '(function(){})', '({})', '(a,b)', 'a[0]', 'new a()', '/r/', 'f`t`', '(1)', 'true', 'null', 'of', 'async', 'get', 'async()']); const r = this.any(); if (/[\[{,]a=1/.test(r[0])) return 'a'; return r[1] === 3 && !r[3] && !/^(new [^(]*$|\{|function|class|async function)/.test(r[0]) && !/^\d/.test(r[0]) && !/^new/.test(r[0]) ? r[0] : '(' + (r[3] ? 'a' : r[0]) + ')'; }
}
const OPS = ['+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '>>>=', '|=', '^=', '&=', '**='];
// [name, text, lowest level that may stand bare, accepts a bare pattern, an expression follows in statement position?]
const POS = [
  ['assign', x => `_=${x}=z;`, 3, true], ['assign stmt', x => `${x}=z;`, 3, true, 1], ['assign par', x => `(${x}=z);`, 3, true], ['assign arg', x => `f(${x}=z);`, 3, true], ['assign arrow', x => `()=>${x}=z;`, 3, true, 2], ['assign init', x => `var v=${x}=z;`, 3, true], ['assign after comma', x => `_,${x}=z;`, 3, true], ['assign chain', x => `_=${x}=_=z;`, 3, true], ['assign cond', x => `_?${x}=z:_;`, 3, true], ['assign cond2', x => `_?_:${x}=z;`, 3, true], ['assign tpl', x => `\`\${${x}=z}\`;`, 3, true], ['assign if', x => `if(${x}=z);`, 3, true], ['assign for', x => `for(${x}=z;;);`, 3, true, 3], ['assign key', x => `_={[${x}=z]:1};`, 3, true], ['assign elem', x => `_=[${x}=z];`, 3, true], ['assign prop', x => `_={a:${x}=z};`, 3, true], ['assign default', x => `function F(p=${x}=z){}`, 3, true], ['assign nl', x => `_=${x}\n=z;`, 3, true], ['assign spread', x => `f(...${x}=z);`, 3, true],
  ['op', (x, d) => `_=${x}${d.pick(OPS)}z;`, 3, false], ['op stmt', (x, d) => `${x}${d.pick(OPS)}z;`, 3, false, 1], ['op par', (x, d) => `(${x} ${d.pick(OPS)} z);`, 3, false], ['op elem', (x, d) => `[${x}${d.pick(OPS)}z];`, 3, false], ['op arrow', (x, d) => `()=>${x}${d.pick(OPS)}z;`, 3, false, 2],
  ['pre', (x, d) => `${d.pick(['++', '--'])} ${x};`, 2, false], ['pre in binary', (x, d) => `_*${d.pick(['++', '--'])} ${x};`, 2, false], ['pre unary', (x, d) => `!${d.pick(['++', '--'])} ${x};`, 2, false], ['post', (x, d) => `_=${x}${d.pick(['++', '--'])};`, 3, false], ['post stmt', (x, d) => `${x}${d.pick(['++', '--'])};`, 3, false, 1], ['post binary', (x, d) => `_=${x}${d.pick(['++', '--'])}*2;`, 3, false], ['post unary', (x, d) => `-${x}${d.pick(['++', '--'])};`, 3, false], ['post typeof', (x, d) => `typeof ${x}${d.pick(['++', '--'])};`, 3, false],
  ['for in', x => `for(${x} in z);`, 3, true, 3], ['for of', x => `for(${x} of z);`, 3, true, 3], ['for await', x => `async function F(){for await(${x} of z);}`, 3, true, 3],
  ['elem', x => `[${x}]=z;`, 3, true], ['elem2', x => `[_,${x}]=z;`, 3, true], ['elem default', x => `[${x}=1]=z;`, 3, true], ['elem hole', x => `[,${x},]=z;`, 3, true], ['rest', x => `[...${x}]=z;`, 3, true], ['rest2', x => `[_,...${x}]=z;`, 3, true], ['prop', x => `({a:${x}}=z);`, 3, true], ['prop default', x => `({a:${x}=1}=z);`, 3, true], ['prop computed', x => `({[_]:${x}}=z);`, 3, true], ['prop string', x => `({"a":${x},_}=z);`, 3, true], ['obj rest', x => `({...${x}}=z);`, 3, false], ['obj rest2', x => `({_,...${x}}=z);`, 3, false], ['deep elem', x => `[[${x}]]=z;`, 3, true], ['deep prop', x => `({a:[{b:${x}}]}=z);`, 3, true], ['for of elem', x => `for([${x}] of z);`, 3, true], ['for in prop', x => `for({a:${x}} in z);`, 3, true], ['par elem', x => `([${x}]=z);`, 3, true], ['nested default', x => `[_=[${x}]=z]=z;`, 3, true], ['arg elem', x => `f([${x}]=z);`, 3, true],
];
const WRAP = { '': [x => x, x => x, x => `{${x}}`, x => `function G(){${x}}`, x => `(()=>{${x}});`, x => `for(;;){${x}}`], m: [x => `_={M(){${x}}};`, x => `class K{M(){${x}}}`, x => `class K{static M(){${x}}}`, x => `_={get M(){${x}}};`], f: [x => `function G(){${x}}`, x => `_=function(){${x}};`, x => `_={M(){${x}}};`], a: [x => `async function G(){${x}}`, x => `_=async()=>{${x}};`], g: [x => `function*G(){${x}}`, x => `_={*M(){${x}}};`] };
module.exports = {
  scale: ['bindings', 'rights', 'members', 'calls', 'patternProps', 'nests'],
  plan(tier) {
    const m = tier === 'thorough' ? 14 : 1;
    const mk = p => d => {
      const x = new X(d), [t, lvl, kind, need] = x.any(), np = kind === 'cover' ? d.weigh([[6, 0], [2, 1], [1, 2]]) : d.weigh([[5, 0], [3, 1], [1, 2]]), pos = p || d.pick(POS);
      let s = t, par = np; if (!par && lvl < pos[2]) par = 1;
      if (!par && pos[4] && /^(\{|function|class|async function|let)/.test(t) && (pos[4] !== 3 || !/^(\{|class|function|async)/.test(t))) par = 1;
      if (!par && pos[4] === 3 && /^(async|let)\b/.test(t)) par = 1;
      for (let i = 0; i < par; i++) s = '(' + s + ')';
      // what the model says; undefined: a bare literal, whose own elements decide (left to the reference)
      let ok = kind === 'id' || kind === 'member' ? true : kind === 'cover' && !par && pos[3] ? undefined : kind === 'other2' && !par && pos[3] && /^[\[{]/.test(t) ? undefined : false;
      let f = pos[1](s, d); if (pos[0] === 'for await' && need && need !== 'a' || need && /[ga]/.test(need) && /arrow|default/.test(pos[0])) return null;
      f = d.pick(WRAP[need || ''])(f);
      return { src: f, goal: d.chance(8) ? 'module' : 'script', ok: ok === undefined ? null : ok, pos: pos[0] };
    };
    return [
      { name: 'expressions in target positions', cases: 160000 * m, gen: mk(null) },
      { name: 'each position in turn', cases: POS.length * 600 * m, gen(d, ctx, i) { return mk(POS[i % POS.length])(d); } },
      { name: 'targets inside programs', cases: 50000 * m, gen(d) { const g = new Gen(d, { goal: 'script', fuel: 4 + d.int(20), w: { assignment: 40, asgPattern: 50, update: 20, for: 16, leaf: 20 } }), ts = g.program(1, 2).map(t => t.semi ? ';' : t); const at = ts.map((t, i) => i).filter(i => /^(=|\+\+|--|[-+*\/%&|^<>]+=|of|in)$/.test(ts[i]) && !/^(==|<=|>=)$/.test(ts[i])); if (!at.length) return null; const i = d.pick(at), x = new X(d).any(); if (x[3]) return null; const s = d.chance(50) ? `(${x[0]})` : x[0]; if (/^(\+\+|--)$/.test(ts[i]) && d.int(2)) ts.splice(i + 1, 1, s); else ts.splice(i - 1, 1, s); return { src: render(ts, 'space'), goal: 'script', ok: null, pos: '' }; } },
    ];
  },
  check(c, ctx) {
    const r = ref(c.src, c.goal); ctx.kind = false;
    if (r.status === 'dontcare') { const x = bad(ctx.g.parse(c.src, c.goal)); ctx.count('reference dontcare'); return x; }
    if (c.ok !== null) {
      if ((r.status === 'ok') !== c.ok) { ctx.count('model and reference disagree'); if (process.env.VERIF_COLLECT) return { sig: `model ${c.ok} reference ${r.status} ${r.msg || ''} ${c.pos}`, msg: r.msg || '' }; return bad(ctx.g.parse(c.src, c.goal)); }
      const q = ctx.g.parse(c.src, c.goal), x = bad(q); if (x) return x; ctx.kind = true; ctx.count(c.ok ? 'valid target' : 'invalid target');
      if (c.ok && q.k !== 'ok') return { sig: 'valid target rejected ' + c.pos, msg: `valid target rejected: ${q.disp}` };
      if (!c.ok && q.k === 'ok') return { sig: 'invalid target accepted ' + c.pos, msg: `invalid target accepted (${r.msg})` };
      if (!c.ok) return null;
    }
    ctx.kind = true;
    return differential(c, ctx);
  },
  nontrivial: (c, ctx) => ctx.kind,
  rule: 'Random expressions of every kind, bare or parenthesised, in about 55 target positions inside various bodies, and swapped in for targets of generated programs. Identifiers and members are valid, everything else is not, except that a bare array/object literal may be a pattern (decided by the reference parser). Non-trivial: model and reference parser agree on the verdict.',
  assumptions: ['Assignments to eval/arguments in strict code are early errors giron documents as not implemented; excluded. A case where acorn 8.19 disagrees with the model is dropped and counted.'],
};
