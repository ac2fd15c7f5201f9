'use strict';
const { E, bad, differential } = require('../common.js');
const { CHARS } = require('../mutate.js');
const LT = ['\n', '\r', '\r\n', '\u2028', '\u2029'];
const hex = (d, n, w) => { const h = n.toString(16).padStart(w, '0'); return d.int(2) ? h : d.int(2) ? h.toUpperCase() : Array.from(h, c => d.int(2) ? c.toUpperCase() : c).join(''); };
function scalar(d) { // any Unicode scalar value, edges favoured
  const k = d.int(8);
  let c = k === 0 ? d.pick([0, 0x7f, 0x80, 0xff, 0x100, 0x2027, 0x2028, 0x2029, 0x202a, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x1f600, 0x85, 0xa0]) : k < 4 ? d.range(0x20, 0x7e) : k === 4 ? d.int(0x20) : k === 5 ? d.int(0x800) : k === 6 ? d.int(0x10000) : d.int(0x110000);
  if (c >= 0xd800 && c < 0xe000) c = 0xfffd;
  return c;
}
const SIMPLE = { b: '\b', t: '\t', n: '\n', v: '\v', f: '\f', r: '\r', '"': '"', "'": "'", '\\': '\\' };
// one part of a literal: [source, value, raw]; q: the quote, or '`'
function part(d, q) {
  const tpl = q === '`';
  switch (d.int(12)) {
    default: { // plain characters
      let c = String.fromCodePoint(scalar(d));
      if (d.int(3)) c = d.pick(['a', 'b', ' ', '0', '7', '8', 'x', 'u', 'n', '{', '}', '$', '/', '/*', '//', '"', "'", '`', '\t', '\u2028', '\u2029', 'é', '😀', ';', '${', '\\u'.slice(1)]);
      if (c === q || c === '\\' || (!tpl && (c === '\n' || c === '\r'))) c = 'z';
      if (tpl && c === '${') c = '$ {';
      if (tpl && c === '\r') return [c, '\n', '\n'];
      return [c, c, c];
    }
    case 4: { const k = d.pick(Object.keys(SIMPLE)); return ['\\' + k, SIMPLE[k]]; }
    case 5: return ['\\0', '\0', null, 'nodigit'];
    case 6: { const c = d.int(256); return ['\\x' + hex(d, c, 2), String.fromCharCode(c)]; }
    case 7: { const c = scalar(d); if (c > 0xffff) { const s = String.fromCodePoint(c); return [`\\u${hex(d, s.charCodeAt(0), 4)}\\u${hex(d, s.charCodeAt(1), 4)}`, s]; } return ['\\u' + hex(d, c, 4), String.fromCharCode(c)]; }
    case 8: { const c = scalar(d); return [`\\u{${hex(d, c, d.int(3) ? 1 : d.range(1, 12))}}`, String.fromCodePoint(c)]; }
    case 9: { // an escape without a meaning of its own
      let c = String.fromCodePoint(scalar(d)); if (/[\n\r\u2028\u2029bfnrtvxu0-9]/.test(c)) c = d.pick(['q', 'a', 'B', 'N', 'U', 'X', '`', '$', '{', '/', 'é', '😀', ' ', '\u00a0']);
      return ['\\' + c, c];
    }
    case 10: { const l = d.pick(LT); return ['\\' + l, '', tpl && /\r/.test(l) ? '\\\n' : null]; }
    case 11: if (tpl) { const l = d.pick(LT), n = /\r/.test(l) ? '\n' : l; return [l, n, n]; } else { // legacy octal escapes
      const k = d.int(3), s = k === 0 ? d.pick(['1', '2', '3', '4', '5', '6', '7']) : k === 1 ? '' + d.range(1, 7) + d.int(8) : '' + d.int(4) + d.int(8) + d.int(8);
      return ['\\' + s, String.fromCharCode(parseInt(s, 8)), null, s.length === 3 || (s.length === 2 && s[0] > '3') ? 'legacy' : 'legacy nodigit'];
    }
  }
}
function body(d, q, o = {}) {
  let src = '', val = '', raw = '', legacy = false, flag = '';
  const n = d.int(7);
  for (let i = 0; i < n; i++) {
    let p = part(d, q);
    if (flag.includes('nodigit') && /^[0-9]/.test(p[0])) { src += 'k'; val += 'k'; raw += 'k'; }
    if (o.nolegacy && (p[3] || '').includes('legacy')) p = ['l', 'l'];
    // a high surrogate escape must not meet a low one by accident: parts never end in a lone one
    if (q === '`' && /\$$/.test(src) && p[0][0] === '{') { src += ' '; val += ' '; raw += ' '; }
    if (q === '`' && /\r$/.test(src) && p[0][0] === '\n') { src += '-'; val += '-'; raw += '-'; }
    if (q !== '`' && /\\\r$/.test(src) && p[0][0] === '\n') { src += '-'; val += '-'; raw += '-'; }
    src += p[0]; val += p[1]; raw += p[2] === undefined || p[2] === null ? p[0] : p[2];
    flag = p[3] || ''; if (flag.includes('legacy')) legacy = true;
  }
  if (o.beforeSub && src.endsWith('$')) { src += ' '; val += ' '; raw += ' '; }
  return { src, val, raw, legacy };
}
const st = n => n.body[0], es = n => n.body[0].expression;
const SPLACES = [ // [before, after, path, goal]
  ['x=', ';', n => es(n).right], ['(', ')', n => es(n)], ['f(', ')', n => es(n).arguments[0]], ['({', ':1})', n => es(n).properties[0].key], ['class A{', '(){}}', n => st(n).body.body[0].key, 'nolegacy'], ['a[', ']', n => es(n).property],
  ['({get ', '(){}})', n => es(n).properties[0].key], ['var {', ':v}=z', n => st(n).declarations[0].id.properties[0].key], ['switch(a){case ', ':}', n => st(n).cases[0].test], ['`${', '}`', n => es(n).expressions[0]], ['throw ', '', n => st(n).argument], ['[', ']', n => es(n).elements[0]], ['a+', '', n => es(n).right], ['(a=', ')=>1', n => es(n).params[0].right], ['typeof', '', n => es(n).argument],
  ['', ';', n => es(n), 'directive'], ['function f(){', '}', n => st(n).body.body[0].expression, 'directive'], ['import ', ';', n => st(n).source, 'module'], ['import a from', '', n => st(n).source, 'module'], ['export * from', ';', n => st(n).source, 'module'], ['export{}from ', '', n => st(n).source, 'module'],
];
const TPLACES = [['x=', ';', n => es(n).right], ['', ';', n => es(n)], ['f', ';', n => es(n).quasi, 'tag'], ['a.b ', '', n => es(n).quasi, 'tag'], ['f(', ')', n => es(n).arguments[0]], ['`${', '}`', n => es(n).expressions[0]], ['({a:', '})', n => es(n).properties[0].value], ['new f', '', n => es(n).callee.quasi, 'tag'], ['f()', '', n => es(n).quasi, 'tag'], ['function g(){return', '}', n => st(n).body.body[0].argument]];
const BADESC = ['\\x', '\\xg', '\\x1', '\\x1g', '\\u', '\\u1', '\\u12', '\\u123', '\\u123g', '\\ug', '\\u{', '\\u{}', '\\u{g}', '\\u{110000}', '\\u{1', '\\u{FFFFFF}', '\\u{ 1}', '\\u{1 }', '\\u{0000110000}', '\\u{fffffffff}', '\\u{1_0}', '\\x-1', '\\u+123', '\\u{-1}', '\\u{12', '\\u{1g}', '\\x\u0661'];
const BADTPL = [...BADESC, '\\1', '\\7', '\\01', '\\00', '\\07', '\\10', '\\377', '\\08', '\\09', '\\8', '\\9', '\\1a'];
module.exports = {
  scale: ['strings', 'templates', 'quasis'],
  plan(tier) {
    const m = tier === 'thorough' ? 14 : 1;
    return [
      { name: 'string literals', cases: 140000 * m, gen(d) { const pl = d.int(SPLACES.length), q = d.pick(['"', "'"]), b = body(d, q, { nolegacy: /nolegacy|module/.test(SPLACES[pl][3] || '') }); return { t: 's', pl, src: q + b.src + q, val: b.val, raw: q + b.src + q, legacy: b.legacy }; } },
      { name: 'template literals', cases: 120000 * m, gen(d) {
        const pl = d.int(TPLACES.length), n = d.weigh([[6, 0], [3, 1], [2, 2]]), qs = []; let src = '`';
        const badAt = TPLACES[pl][3] === 'tag' && d.chance(30) ? d.int(n + 1) : -1;
        for (let i = 0; i <= n; i++) {
          const b = body(d, '`', { beforeSub: i < n });
          if (i === badAt) { // ES2018: allowed in tagged templates, without a cooked value
            const e = d.pick(BADTPL), b2 = body(d, '`', { beforeSub: i < n }); const join = /^[0-9a-fA-F{}]/.test(b2.src) ? '-' : '';
            const b1 = b.src + (/\$$/.test(b.src) ? ' ' : ''), r1 = b.raw + (/\$$/.test(b.src) ? ' ' : '');
            src += b1 + e + join + b2.src; qs.push([r1 + e + join + b2.raw, null]);
          } else { src += b.src; qs.push([b.raw, b.val]); }
          if (i < n) src += '${' + d.pick(['a', ' a ', '\na\n', '/**/a', '"}"', '{}', '`x`', '`${1}`', '/}/']) + '}';
        }
        return { t: 't', pl, src: src + '`', qs };
      } },
      { name: 'malformed strings and templates', cases: 50000 * m, gen(d) {
        const q = d.pick(['"', "'", '`']), b = body(d, q, { nolegacy: true }), k = d.int(4); let s;
        const rest = body(d, q, { nolegacy: true });
        const clean = x => /\$$/.test(x) && q === '`' ? x + ' ' : x;
        if (k === 0) s = q + clean(b.src); // never closed
        else if (k === 1 && q !== '`') s = q + b.src + (/\r$/.test(b.src) ? '-' : '') + d.pick(['\n', '\r', '\r\n']) + rest.src + q; // a bare line terminator
        else { const e = d.pick(q === '`' ? BADTPL : BADESC); s = q + clean(b.src) + e + (/^[0-9a-fA-F{}]/.test(rest.src) ? '-' : '') + rest.src + q; if (q === '`' && d.int(3) === 0) s = s.slice(0, -1) + '${a}`'; }
        const pre = d.pick(['x=', '', 'f(', '({a:', 'if(a)', 'throw ']);
        return { t: 'bad', src: pre + s + (k === 0 ? '' : pre === 'f(' ? ')' : pre === '({a:' ? '})' : '') };
      } },
      { name: 'mutated literals', cases: 50000 * m, gen(d) {
        const q = d.pick(['"', "'", '`']), b = body(d, q), cs = Array.from(q + b.src + q), n = d.range(1, 3);
        for (let k = 0; k < n; k++) { const i = d.int(cs.length + 1); if (d.int(3) === 0) cs.splice(i, 1); else cs.splice(i, d.int(2), d.pick([...CHARS, '\\', '\\', '\\u', '\\x', '${', q, 'd800', '\\ud83d', '\\udc00'])); }
        return { t: 'mut', src: d.pick(['x=', 'f', '']) + cs.join('') + d.pick(['', ';', '\n']), goal: d.int(8) ? 'script' : 'module' };
      } },
    ];
  },
  check(c, ctx) {
    if (c.t === 'mut') {
      if (/\\[89]/.test(c.src)) { ctx.last = 'skip'; return null; }
      return differential({ src: c.src, goal: c.goal }, ctx);
    }
    if (c.t === 'bad') { ctx.last = 'bad'; const q = ctx.g.parse(c.src, 'script'); return bad(q) || (q.k === 'ok' ? { sig: 'accepted', msg: `malformed literal accepted: ${c.src}` } : null); }
    const pl = (c.t === 's' ? SPLACES : TPLACES)[c.pl], src = pl[0] + c.src + pl[1];
    const q = ctx.g.parse(src, pl[3] === 'module' || pl[3] === 'nolegacy' ? 'module' : 'script'); ctx.last = 'ok';
    const f = bad(q); if (f) return f;
    if (q.k !== 'ok') return { sig: 'rejected', msg: `valid literal rejected (${q.disp}): ${src}` };
    let n; try { n = pl[2](q.ast); } catch (e) { n = undefined; }
    if (!n || typeof n !== 'object') return { sig: 'place', msg: `no literal at its place in ${src}` };
    if (c.t === 's') {
      if (n.type !== 'Literal') return { sig: 'type', msg: `${n.type} for ${c.src}` };
      if (n.value !== c.val) return { sig: 'value', msg: `value ${JSON.stringify(n.value)} expected ${JSON.stringify(c.val)} for ${src}` };
      if (n.raw !== c.raw) return { sig: 'raw', msg: `raw ${JSON.stringify(n.raw)} expected ${JSON.stringify(c.raw)}` };
      if (pl[3] === 'directive') { const s = pl[0] ? st(q.ast).body.body[0] : st(q.ast); if (s.directive !== c.raw.slice(1, -1)) return { sig: 'directive', msg: `directive ${JSON.stringify(s.directive)} for ${src}` }; }
      return null;
    }
    if (n.type !== 'TemplateLiteral') return { sig: 'type', msg: `${n.type} for ${c.src}` };
    if (n.quasis.length !== c.qs.length) return { sig: 'quasis', msg: `${n.quasis.length} quasis expected ${c.qs.length} for ${src}` };
    for (let i = 0; i < c.qs.length; i++) {
      const v = n.quasis[i].value, [raw, cooked] = c.qs[i];
      if (v.raw !== raw) return { sig: 'template raw', msg: `raw ${JSON.stringify(v.raw)} expected ${JSON.stringify(raw)} for ${src}` };
      if ((v.cooked === undefined ? null : v.cooked) !== cooked) return { sig: 'cooked', msg: `cooked ${JSON.stringify(v.cooked)} expected ${JSON.stringify(cooked)} for ${src}` };
      if (n.quasis[i].tail !== (i === c.qs.length - 1)) return { sig: 'tail', msg: `tail of quasi ${i} of ${src}` };
    }
    return null;
  },
  nontrivial: (c, ctx) => (ctx.last === 'ok' && (c.src || '').length > 3) || c.t === 'bad' || ctx.last === 'reject',
  rule: 'Literals built from parts whose value and raw text are known (plain characters over all of Unicode, every escape form, legacy octal, continuations, all line terminators) in 31 places; literals with a defect; mutated literals judged by the reference. Non-trivial: a literal with at least two characters between its quotes, or a malformed one.',
  assumptions: ['Values containing lone surrogates are not generated (a Rust String cannot hold them); \\8 and \\9 in strings are not generated (unspecified in ES2019).'],
};
