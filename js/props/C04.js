'use strict';
const { bad, differential } = require('../common.js');
const digits = (d, n, set = '0123456789') => { let s = ''; for (let i = 0; i < n; i++) s += d.pick(Array.from(set)); return s; };
const len = d => d.weigh([[8, d.range(1, 3)], [6, d.range(1, 25)], [2, d.range(15, 20)], [1, d.range(20, 340)]]);
function exp(d) { return d.chance(45) ? d.pick(['e', 'E']) + d.pick(['', '+', '-']) + d.weigh([[6, digits(d, d.range(1, 2))], [3, String(d.range(280, 330))], [1, digits(d, d.range(1, 6))], [1, '0' + digits(d, 2)]]) : ''; }
// hard cases for decimal to double conversion
const HARD = ['9007199254740993', '9007199254740992', '9007199254740991', '9007199254740995', '1.7976931348623157e308', '1.7976931348623158e308', '1.7976931348623159e308', '1.797693134862315807e308', '5e-324', '2.4703282292062327e-324', '2.4703282292062328e-324', '4.9e-324', '2.2250738585072011e-308', '2.2250738585072014e-308', '0.1', '0.30000000000000004', '1e23', '9.5367431640625e-7', '18014398509481985', '36893488147419103233', '18446744073709551615', '18446744073709551616', '9223372036854775807', '9223372036854775808', '4294967295', '4294967296', '2147483648', '1e21', '1e22', '123456789012345680000', '0.000001', '0.0000001', '1e400', '1e-400', '0e999999', '0.0', '0.', '.0', '0e0', '6.631236846766476e-316', '3.237883913302901e-319', '1.9430376160308388e16', '7.2057594037927933e16', '8.5e0', '1448997445238699', '6929495644600919.5', '3.7455744005952583e15', '4503599627370496.5', '4503599627475353.5', '9007199254740993.0', '1.00000000000000011102230246251565', '1.00000000000000011102230246251564', '1.00000000000000011102230246251566', '0x20000000000001', '0x20000000000003', '0x1fffffffffffff8', '0xfffffffffffff800', '0xfffffffffffffbff', '0xfffffffffffffc00', '0xffffffffffffffff', '0x10000000000000000', '0b' + '1'.repeat(54), '0b' + '1'.repeat(64), '0b1' + '0'.repeat(53) + '1', '0o400000000000000001', '0o777777777777777777777', '0o1777777777777777777777', '0x' + 'f'.repeat(255), '0x' + 'f'.repeat(256), '0x' + 'f'.repeat(257), '0x8000000000000400', '0x8000000000000401', '0x800000000000040000000000001'];
function number(d) { // [source, value, kind]
  switch (d.int(9)) {
    default: { const i = d.int(4) ? (d.pick(['1', '2', '3', '4', '5', '6', '7', '8', '9']) + digits(d, len(d) - 1)) : '0'; const s = i + d.pick(['', '', '.', '.' + digits(d, len(d))]) + exp(d); return [s, Number(s), 'decimal']; }
    case 3: { const s = '.' + digits(d, len(d)) + exp(d); return [s, Number(s), 'decimal']; }
    case 4: { const s = digits(d, len(d), '0123456789abcdefABCDEF'); return [d.pick(['0x', '0X']) + s, Number('0x' + s), 'hex']; }
    case 5: { const s = digits(d, len(d), '01234567'); return [d.pick(['0o', '0O']) + s, Number('0o' + s), 'octal']; }
    case 6: { const s = digits(d, d.int(2) ? len(d) : d.range(1, 70), '01'); return [d.pick(['0b', '0B']) + s, Number('0b' + s), 'binary']; }
    case 7: { const s = d.pick(HARD); return [s, Number(s), 'hard']; }
    case 8: if (d.int(2)) { const s = digits(d, len(d), '01234567'); return ['0' + s, Number('0o' + s), 'legacy']; }
      else { let s = digits(d, d.range(0, 6)) + d.pick(['8', '9']) + digits(d, d.range(0, 12)); const t = '0' + s + d.pick(['', '', '.', '.' + digits(d, 3)]) + exp(d); return [t, Number(t), 'legacy']; }
  }
}
const st = n => n.body[0], es = n => n.body[0].expression;
const PL = [['x=', ';', n => es(n).right], ['', ';', n => es(n)], ['(', ')', n => es(n)], ['-', '', n => es(n).argument], ['f(', ',a)', n => es(n).arguments[0]], ['[', ']', n => es(n).elements[0]], ['a[', ']', n => es(n).property], ['({', ':1})', n => es(n).properties[0].key], ['({', '(){}})', n => es(n).properties[0].key], ['class A{', '(){}}', n => st(n).body.body[0].key, 'strict'], ['({get ', '(){}})', n => es(n).properties[0].key], ['var {', ':v}=z', n => st(n).declarations[0].id.properties[0].key], ['a?', ':b', n => es(n).consequent], ['`${', '}`', n => es(n).expressions[0]], ['case1:switch(a){case ', ':}', n => st(n).body.cases[0].test], ['a<', '', n => es(n).right], ['', '<a', n => es(n).left], ['', '+a', n => es(n).left], ['a/', '/b', n => es(n).left.right], ['', '/b', n => es(n).left], ['', '\nb', n => es(n)], ['for(;;', ');', n => st(n).update], ['', '?a:b', n => es(n).test], ['({a:', '})', n => es(n).properties[0].value], ['', '//', n => es(n)], ['', '[a]', n => es(n).object], ['', ' .a', n => es(n).object], ['', ' in a', n => es(n).left], ['', '===a', n => es(n).left], ['', '-1', n => es(n).left], ['', '`t`', n => es(n).tag], ['', '()', n => es(n).callee], ['a=>', '', n => es(n).body]];
const GLUE = ['a', '$', '_', 'n', 'in b', 'instanceof b', 'x', 'e', 'é', '\\u0061', '_1', 'of', 'g', '𠮷', '\\u{61}'];
const BADNUM = ['0x', '0X', '0b', '0B', '0o', '0O', '0xg', '0b2', '0o8', '0b12', '0o18', '0b0a', '0x1g', '0o7a', '1e', '1E', '1e+', '1e-', '1.e', '1.5e', '.5e', '.5e+', '1ea', '1e+a', '0e', '1e1.5', '1e1e1', '0x1.5', '0b1.1', '0o7.7', '1..5', '1.5.5', '.5.5', '1_0', '0x_1', '1_', '1._5', '0_1', '1n', '0x1n', '0b1n', '5.n', '08n', '01n', '07.5', '00.5', '07e1', '08a', '07a', '089n', '1e5_0', '0xe+', '0x0x1', '00x1', '0b0b1', '1 .5', '1 2', '0 1', '0X', '0xG', '.e1', '0o', '.1.', '1e5.'];
module.exports = {
  scale: ['digits', 'radix'],
  plan(tier) {
    const m = tier === 'thorough' ? 14 : 1;
    return [
      { name: 'hard values', cases: HARD.length * PL.length, gen(d, ctx, i) { const s = HARD[i % HARD.length]; const pl = Math.floor(i / HARD.length); return { t: 'n', pl, src: s, val: Number(s), kind: 'hard' }; } },
      { name: 'numeric literals', cases: 280000 * m, gen(d) { let n = number(d); const pl = d.int(PL.length); if (n[2] === 'legacy' && PL[pl][3]) n = ['1', 1, 'decimal']; return { t: 'n', pl, src: n[0], val: n[1], kind: n[2] }; } },
      { name: 'malformed numbers', cases: 60000 * m, gen(d) {
        const k = d.int(3);
        const s = k === 0 ? d.pick(BADNUM) : k === 1 ? number(d)[0] + d.pick(GLUE) : d.pick(['0x', '0b', '0o', '0X', '0B', '0O']) + d.pick(['', 'g', 'z', '_', ' 1', '.', '-1', '$']);
        const pl = PL[d.pick([0, 2, 4, 5, 6, 13, 23])];
        return { t: 'bad', src: pl[0] + s + pl[1] };
      } },
      { name: 'number soup', cases: 100000 * m, gen(d) { const n = d.range(1, 9); let s = d.pick(['0', '1', '.', '0x', '0b', '0o', '9', '8', '00', '07', '08']); for (let i = 0; i < n; i++) s += d.pick(['0', '1', '7', '8', '9', '.', 'e', 'E', '+', '-', 'x', 'b', 'o', 'a', 'f', '_', 'n', '..', 'e1', 'e+', '.5']); return { t: 'mut', src: d.pick(['x=', '(', 'a[', '']) + s + d.pick(['', '', ';', ')', ']']), goal: d.int(8) ? 'script' : 'module' }; } },
      { name: 'true, false, null', cases: PL.length * 3, gen(d, ctx, i) { const w = ['true', 'false', 'null'][i % 3], pl = Math.floor(i / 3); return { t: 'w', pl, src: w }; } },
    ];
  },
  check(c, ctx) {
    if (c.t === 'mut') return differential(c, ctx);
    if (c.t === 'bad') {
      ctx.last = 'bad';
      // glued words can still be right: 0xa + 'e' is another number, 1 + 'e' nothing
      const r = require('../ref.js').ref(c.src, 'script'); if (r.status !== 'reject') { ctx.last = 'ok'; return differential({ src: c.src, goal: 'script' }, ctx); }
      const q = ctx.g.parse(c.src, 'script');
      return bad(q) || (q.k === 'ok' ? { sig: 'accepted', msg: `malformed number accepted: ${c.src}` } : null);
    }
    const pl = PL[c.pl], word = c.t === 'w', src = (word && /[a-z]$/.test(pl[0]) ? pl[0] + ' ' : pl[0]) + c.src + pl[1]; ctx.last = 'ok';
    const q = ctx.g.parse(src, pl[3] ? 'module' : 'script');
    const f = bad(q); if (f) return f;
    if (q.k !== 'ok') return { sig: 'rejected', msg: `valid literal rejected (${q.disp}): ${src}` };
    let n; try { n = pl[2](q.ast); } catch (e) { n = undefined; }
    if (word && n && n.type === 'Identifier' && [7, 8, 9, 10, 11].includes(c.pl)) return n.name === c.src ? null : { sig: 'key', msg: `key ${n.name} for ${src}` };
    if (!n || n.type !== 'Literal') return { sig: 'type', msg: `${n && n.type} for ${c.src} in ${src}` };
    const want = word ? JSON.parse(c.src) : Number.isFinite(c.val) ? c.val : null; // JSON has no Infinity
    if (typeof n.value !== typeof want || !Object.is(n.value, want)) return { sig: 'value', msg: `value ${n.value} expected ${want} for ${src}` };
    if (n.raw !== c.src) return { sig: 'raw', msg: `raw ${n.raw} expected ${c.src}` };
    return null;
  },
  nontrivial: (c, ctx) => c.t === 'bad' || c.t === 'w' || (c.src.length > 1 && ctx.last !== 'dontcare'),
  rule: 'Numeric literals of every form (up to 340 digits, exponents around the limits, a table of hard roundings, legacy octal) whose value is known, in 33 places; malformed numbers and numbers glued to names; random soup over number characters judged by the reference; true/false/null. Non-trivial: more than one character long.',
  assumptions: ['Expected doubles come from the correctly rounding string-to-number conversion of V8. JSON cannot hold Infinity, so the value of an overflowing literal is null.'],
};
