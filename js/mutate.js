'use strict';
// Mutations of valid programs, at token and at character level.
const { render, SEMI, DOSEMI, NONL, RESERVED, REGEX, NUMS } = require('./gen.js');
const PUNCT = ['{', '}', '(', ')', '[', ']', '.', '...', ';', ',', '<', '>', '<=', '>=', '==', '!=', '===', '!==', '+', '-', '*', '/', '%', '**', '++', '--', '<<', '>>', '>>>', '&', '|', '^', '!', '~', '&&', '||', '?', ':', '=', '+=', '-=', '*=', '/=', '%=', '**=', '<<=', '>>=', '>>>=', '&=', '|=', '^=', '=>', '?', '#', '@', '\\'];
const WORDS = [...RESERVED, 'let', 'static', 'yield', 'await', 'async', 'of', 'get', 'set', 'target', 'x', 'arguments', 'eval', 'constructor', 'from', 'as', '"use strict"', '1', '""', '``', '/a/', 'a', 'new.target', 'super', 'new', '0x', '1e', '"', "'", '`', '`${', '}`', '\\u0061', '/*', '//', '*/', '<!--', '-->'];
const randTok = d => d.int(2) ? d.pick(PUNCT) : d.int(3) ? d.pick(WORDS) : d.pick([...NUMS, ...REGEX]);
const flat = ts => ts.map(t => t === NONL ? t : t.semi ? ';' : t);
// One to three edits of a token list.
function mutateTokens(d, tokens, max = 3) {
  let ts = flat(tokens);
  const n = d.range(1, max);
  for (let k = 0; k < n; k++) {
    const i = d.int(Math.max(1, ts.length)), j = d.int(Math.max(1, ts.length));
    switch (d.int(9)) {
      case 0: ts.splice(i, 1); break;
      case 1: ts.splice(i, 0, randTok(d)); break;
      case 2: ts.splice(i, 1, randTok(d)); break;
      case 3: if (ts.length) ts.splice(i, 0, ts[i]); break;
      case 4: if (ts.length > 1) { const m = Math.min(i, ts.length - 2);[ts[m], ts[m + 1]] = [ts[m + 1], ts[m]]; } break;
      case 5: if (ts.length) ts.splice(i, 0, ts[j]); break;
      case 6: { const c = Math.min(1 + d.int(4), ts.length - i); ts.splice(i, c); break; }
      case 7: { const c = ts.slice(j, j + 1 + d.int(5)); ts.splice(i, 0, ...c); break; }
      case 8: if (d.int(4) === 0) ts = ts.slice(0, i); else ts.splice(i, 1, d.pick(PUNCT)); break;
    }
  }
  return ts;
}
const CHARS = ['a', '0', '1', '9', '_', '$', ' ', '\n', '\r', '\u2028', '"', "'", '`', '/', '*', '\\', '{', '}', '(', ')', '[', ']', ';', ',', '.', '=', '>', '<', '!', '+', '-', '&', '|', '?', ':', '#', '@', '^', '~', '%', 'u', 'x', 'n', 'e', 'b', 'o', 'é', '\u200c', '𠮷', '\ufeff', '\u00a0', '\0', '\u0085', '\ufffd', '\u0301', '😀'];
function mutateText(d, text, max = 3) {
  const cs = Array.from(text), n = d.range(1, max);
  for (let k = 0; k < n; k++) {
    const i = d.int(cs.length + 1);
    switch (d.int(5)) {
      case 0: cs.splice(i, 1); break;
      case 1: cs.splice(i, 0, d.pick(CHARS)); break;
      case 2: cs.splice(i, 1, d.pick(CHARS)); break;
      case 3: if (d.int(3) === 0) cs.length = Math.min(cs.length, i); else cs.splice(i, 1 + d.int(4)); break;
      case 4: { const s = cs.slice(i, i + 1 + d.int(6)); cs.splice(d.int(cs.length + 1), 0, ...s); break; }
    }
  }
  return cs.join('');
}
module.exports = { mutateTokens, mutateText, randTok, PUNCT, WORDS, CHARS };
