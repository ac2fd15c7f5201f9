'use strict';
const { model, LEVEL, UNARY, ASSIGN } = require('../opmodel.js');
const { E, bad, tail } = require('../common.js');
const { safe } = require('../gen.js');

const BIN = [...Object.keys(LEVEL), '**'];
const OPS = [...BIN, ...ASSIGN, ','];
const PRE = ['', ...UNARY, '++', '--', 'new', 'await', 'yield'];
const POST = ['', '++', '--', '.p', '()', '[i]', '`t`'];
const postToks = { '': [], '++': ['++'], '--': ['--'], '.p': ['.', 'p'], '()': ['(', ')'], '[i]': ['[', 'i', ']'], '`t`': ['`t`'] };
// places: [text before, text after, level, options, path to the expression]
const P = (b, a, level, o, at) => ({ b, a, level, o: o || {}, at });
const st = n => n.body[0], es = n => n.body[0].expression, fn = n => n.body[0].body.body[0].expression;
const PLACES = [
  P('', ';', 'expr', {}, es), P('(', ');', 'expr', {}, es), P('x=', ';', 'assign', {}, n => es(n).right), P('var v=', ';', 'assign', {}, n => st(n).declarations[0].init),
  P('f(', ');', 'assign', {}, n => es(n).arguments[0]), P('[', '];', 'assign', {}, n => es(n).elements[0]), P('({p:', '});', 'assign', {}, n => es(n).properties[0].value),
  P('`${', '}`;', 'expr', {}, n => es(n).expressions[0]), P('a[', '];', 'expr', {}, n => es(n).property), P('if(', ');', 'expr', {}, n => st(n).test), P('while(', ');', 'expr', {}, n => st(n).test),
  P('for(', ';;);', 'expr', { noIn: true }, n => st(n).init), P('for(var v=', ';;);', 'assign', { noIn: true }, n => st(n).init.declarations[0].init), P('for(let u,v=', ';;);', 'assign', { noIn: true }, n => st(n).init.declarations[1].init),
  P('for(;', ';);', 'expr', {}, n => st(n).test), P('for(;;', ');', 'expr', {}, n => st(n).update), P('for(q of ', ');', 'assign', {}, n => st(n).right), P('for(q in ', ');', 'expr', {}, n => st(n).right),
  P('switch(s){case ', ':}', 'expr', {}, n => st(n).cases[0].test), P('throw ', ';', 'expr', {}, n => st(n).argument), P('function f(){return ', ';}', 'expr', {}, n => st(n).body.body[0].argument),
  P('()=>', ';', 'assign', { arrow: true }, n => es(n).body), P('(z)=>(', ');', 'expr', {}, n => es(n).body), P('q?', ':r;', 'assign', {}, n => es(n).consequent), P('q?r:', ';', 'assign', {}, n => es(n).alternate),
  P('function f(p=', '){}', 'assign', {}, n => st(n).params[0].right), P('[p=', ']=q;', 'assign', {}, n => es(n).left.elements[0].right), P('({[', ']:1});', 'assign', {}, n => es(n).properties[0].key),
  P('function*g(){', ';}', 'expr', { yield: true }, fn), P('async function g(){', ';}', 'expr', { await: true }, fn), P('async function*g(){', ';}', 'expr', { yield: true, await: true }, fn),
  P('function*g(){f(', ');}', 'assign', { yield: true }, n => fn(n).arguments[0]), P('function*g(){x=', ';}', 'assign', { yield: true }, n => fn(n).right), P('async()=>', ';', 'assign', { await: true }, n => es(n).body),
  P('function*g(){yield ', ';}', 'assign', { yield: true }, n => fn(n).argument), P('function*g(){for(', ';;);}', 'expr', { yield: true, noIn: true }, n => n.body[0].body.body[0].init),
];
const LEAF = ['a', 'b', 'c', 'd', 'e', '1', '0', '"s"', 'this', 'null', 'true', '`t`', '/r/g', '2.5'];

function text(toks, d, mode) {
  let s = '', prev = null;
  for (const t of toks) {
    if (prev !== null) s += mode === 0 ? ' ' : mode === 1 ? (safe(prev, t) ? '' : ' ') : safe(prev, t) && d.int(2) ? '' : d.pick([' ', '  ', '\t', ' /**/ ', ' /*x*/', '\u00a0']);
    s += t; prev = t;
  }
  return s;
}
function make(d, toks, place, mode) { return { b: place.b + ' ', s: text(toks, d, mode), a: ' ' + place.a, toks, place: PLACES.indexOf(place) }; }

// random expression tokens, mostly valid
class Flat {
  constructor(d, o) { this.d = d; this.o = o; this.fuel = d.range(2, 14); this.in = 0; }
  // inside brackets, where in is an operator again
  nest(comma) { this.in++; const r = this.seq(comma); this.in--; return r; }
  op() { return this.in && this.o.noIn && this.d.chance(25) ? 'in' : this.d.pick(BIN); }
  operand() {
    const d = this.d, k = d.int(12);
    if (this.fuel-- > 0) {
      if (k === 1) return ['(', ...this.nest(true), ')'];
      if (k === 2) return ['[', ...(d.int(3) ? this.nest(false) : []), ']'];
      if (k === 3) return ['new', d.pick(['a', 'b']), ...(d.int(2) ? ['(', ...(d.int(2) ? this.nest(false) : []), ')'] : [])];
    }
    return [k < 9 ? d.pick(['a', 'b', 'c', 'd', 'e']) : d.pick(LEAF)];
  }
  unit() {
    const d = this.d, r = [];
    while (d.chance(20)) r.push(d.weigh([[6, d.pick(UNARY)], [2, d.pick(['++', '--'])], [this.o.await ? 6 : 0, 'await'], [1, 'new']]));
    r.push(...this.operand());
    while (d.chance(18)) { const k = d.int(5); if (k === 0) r.push('.', d.pick(['p', 'in', 'q', 'typeof'])); else if (k === 1) r.push('[', ...this.nest(true), ']'); else if (k === 2) r.push('(', ...(d.int(2) ? this.nest(false) : []), ')'); else if (k === 3) r.push('`t`'); else r.push(d.pick(['++', '--'])); }
    return r;
  }
  assignHead() {
    const d = this.d, k = d.int(14);
    if (k === 1) return [d.pick(['a', 'b', 'x']), ...(d.int(4) === 0 ? ['.', 'p'] : []), d.pick(ASSIGN)];
    if (k === 2) return d.pick([['x', '=>'], ['(', ')', '=>'], ['(', 'x', ',', 'y', ')', '=>'], ['async', 'x', '=>']]);
    if (k === 3 && this.o.yield) return d.pick([['yield'], ['yield', '*']]);
    return [];
  }
  seq(comma) {
    const d = this.d, r = this.assignHead(); r.push(...this.unit());
    let n = d.range(0, 5), q = 0;
    while (n-- > 0 && this.fuel-- > 0) {
      const k = d.int(16);
      if (k < 12) { r.push(this.op()); r.push(...this.unit()); }
      else if (k === 12) { r.push('?', ...(d.int(3) ? [...this.assignHead(), ...this.unit()] : this.nest(false)), ':', ...this.assignHead(), ...this.unit()); q++; }
      else if (k === 13) r.push(d.pick(ASSIGN), ...this.unit());
      else if (k === 14 && comma) r.push(',', ...this.assignHead(), ...this.unit());
      else { r.push(d.pick(['?', ':', '=>', '||', '&&', '**', '>>=', 'in'])); r.push(...this.assignHead(), ...this.unit()); }
    }
    return r;
  }
}
const MUT = [...OPS, ...PRE.filter(x => x && x !== 'await' && x !== 'yield'), '?', ':', '=>', 'a', 'b', '1', '.', '`t`', '"s"'];
function mutate(d, toks, o) {
  const t = toks.slice(), n = d.range(1, 2), all = MUT.concat(o.await ? ['await'] : [], o.yield ? ['yield'] : []);
  for (let k = 0; k < n; k++) {
    const i = d.int(t.length);
    const br = /^[()[\]]$/.test(t[i]); // brackets stay balanced, so that the place keeps its meaning
    switch (d.int(5)) {
      case 0: if (!br && t.length > 1) t.splice(i, 1); break;
      case 1: t.splice(i, 0, d.pick(all)); break;
      case 2: if (!br) t[i] = d.pick(all); break;
      case 3: if (!br && i + 1 < t.length && !/^[()[\]]$/.test(t[i + 1])) [t[i], t[i + 1]] = [t[i + 1], t[i]]; break;
      case 4: { let j = i; if (!br) { t.splice(i, 1, '(', t[i], ')'); } break; }
    }
  }
  return t;
}
const N3 = BIN.length ** 3, NOIN = PLACES.filter(p => p.o.noIn);
const place = d => d.chance(15) ? d.pick(NOIN) : d.pick(PLACES);
module.exports = {
  scale: ['operands', 'rights', 'members', 'calls', 'nests'],
  plan(tier) {
    const m = tier === 'thorough' ? 14 : 1;
    return [
      { name: 'all triples of binary operators', cases: N3, gen(d, ctx, i) {
        const o = [BIN[i % BIN.length], BIN[Math.floor(i / BIN.length) % BIN.length], BIN[Math.floor(i / BIN.length ** 2)]];
        return make(d, ['a', o[0], 'b', o[1], 'c', o[2], 'd'], PLACES[d.int(PLACES.length)], d.int(3));
      } },
      { name: 'operand decorations x operator', cases: 60000 * m, gen(d) {
        const pl = place(d), u = () => { const p = d.pick(PRE); return [...(p === '' || (p === 'await' && !pl.o.await) || (p === 'yield' && !pl.o.yield) ? [] : [p]), 'abcdef'[d.int(6)], ...postToks[d.pick(POST)]]; };
        const n = d.range(1, 3), t = u(); for (let k = 0; k < n; k++) { if (d.int(8) === 0) t.push('?', ...u(), ':', ...u()); else t.push(d.pick(OPS), ...u()); }
        return make(d, t, pl, d.int(3));
      } },
      { name: 'random expressions', cases: 160000 * m, gen(d) { const pl = place(d), f = new Flat(d, pl.o); return make(d, f.seq(pl.level === 'expr'), pl, d.int(3)); } },
      { name: 'mutated expressions', cases: 80000 * m, gen(d) { const pl = place(d), f = new Flat(d, pl.o); return make(d, mutate(d, f.seq(pl.level === 'expr'), pl.o), pl, d.int(3)); } },
    ];
  },
  check(c, ctx) {
    const pl = PLACES[c.place], r = model(c.toks, pl.level, pl.o);
    ctx.last = r.k;
    ctx.count('model ' + r.k);
    const q = ctx.g.parse(c.b + c.s + c.a, 'script');
    const f = bad(q); if (f) return f;
    if (r.k === 'skip') return null;
    if (r.k === 'reject') {
      // an ungrammatical operand list may still be two well-formed ones: f(a,b), [a,b], var v=a,b
      if (c.toks.includes(',') && pl.level === 'assign') return null;
      if (c.toks[1] === ':' || (c.toks[0] === '*' && /yield *$/.test(c.b)) || (c.toks.includes(':') && /^ *:r/.test(c.a))) return null; // a label; yield*; q?a:b?c:r
      if (c.toks.includes('/r/g')) return null; // where the model fails, it may be a division
      return q.k === 'ok' ? { sig: 'accepted', msg: `not an expression (${r.why}) but accepted: ${c.b}${c.s}${c.a}` } : null;
    }
    if (q.k !== 'ok') return { sig: 'rejected', msg: `valid expression rejected (${q.disp}): ${c.b}${c.s}${c.a}` };
    let node; try { node = pl.at(q.ast); } catch (e) { return { sig: 'place', msg: `no expression at the place: ${c.b}${c.s}${c.a}` }; }
    const d = E.diff(E.canon(r.ast), E.canon(node));
    return d ? { sig: 'tree:' + tail(d.path), msg: `${c.b}${c.s}${c.a}: ${E.showDiff(d, 'expected')}` } : null;
  },
  nontrivial: (c, ctx) => ctx.last === 'ok' && c.toks.filter(t => OPS.includes(t) || t === '?' || PRE.includes(t)).length >= 2,
  rule: 'All 13,824 triples of binary operators, all prefix/postfix decorations of operands sampled against all operators, random and mutated operator expressions (parentheses, ?:, assignments, arrows, yield, await, new, calls, members, in inside for heads) in 36 places; each compared with a token-level model of the expression grammar, which gives the tree or rejects. Non-trivial: grammatical with at least two operators.',
  assumptions: ['The model (opmodel.js) is written from the ES2019 expression grammar, independently of giron and acorn.'],
};
