'use strict';
// Identifier characters by Unicode 8.0 (the oldest version ES2019 allows). A character assigned
// later may or may not be known to the tables giron uses: `young` texts get no verdict.
const R = require('./unicode.json');
const inR = (l, c) => { let a = 0, b = l.length >> 1; while (a < b) { const m = (a + b) >> 1; if (c > l[2 * m + 1]) a = m + 1; else b = m; } return a < l.length >> 1 && c >= l[2 * a] && c <= l[2 * a + 1]; };
const old = c => c < 0x80 || inR(R.old, c);
const idStart = c => c === 0x24 || c === 0x5f || inR(R.start, c);
const idCont = c => c === 0x24 || c === 0x5f || c === 0x200c || c === 0x200d || inR(R.cont, c);
// characters that no Unicode version up to 8.0 assigns, outside ASCII
function young(text) { if (/^[\x00-\x7f]*$/.test(text)) return false; for (const ch of text) if (!old(ch.codePointAt(0))) return true; return /\\u/.test(text) && [...text.matchAll(/\\u(?:\{([0-9a-fA-F]{1,8})\}|([0-9a-fA-F]{4}))/g)].some(m => { const c = parseInt(m[1] || m[2], 16); return c > 0x7f && !old(c); }); }
function ranges(k) { const r = [], l = R[k]; for (let i = 0; i < l.length; i += 2) r.push([l[i], l[i + 1]]); return r; }
const list = k => { const a = []; for (const [x, y] of ranges(k)) for (let c = x; c <= y; c++) a.push(c); return a; };
module.exports = { old, idStart, idCont, young, ranges, list };
