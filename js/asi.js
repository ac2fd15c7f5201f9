'use strict';
// Renders token lists with semicolons left out and line breaks put in.
const { safe } = require('./gen.js');
const NLS = ['\n', '\r', '\r\n', '\u2028', '\u2029', '/*\n*/', '//x\n', ' \n ', '\n\n', '/*\r*/ ', '/* a\u2028*/'];
// A token that can never continue the statement before it
const starter = t => t !== undefined && !/^(in|instanceof|of|as|from)$/.test(t) && !/\\/.test(t) && /^([A-Za-z_$\u00aa-\uffff]|[0-9"'{}!~]|\+\+$|--$)/.test(t) && !/^(!=|!==)$/.test(t) && !/^}./.test(t);
const sticky = t => /^(let|return|break|continue|yield|async|await|throw|static|get|set|export|}|of|from|as)$/.test(t) || /\\/.test(t);
function split(ts) { // -> [{t, semi, dow, nonl}]
  const r = []; let nonl = false;
  for (const t of ts) { if (typeof t !== 'string' && t.nonl) { nonl = true; continue; } r.push(typeof t === 'string' ? { t, nonl } : { t: ';', semi: true, dow: !!t.dow, nonl }); nonl = false; }
  return r;
}
// drop: chance of leaving a semicolon out, nl: of a line break in an ordinary gap
function layout(d, L, drop, nl) {
  let s = '', dropped = 0, brk = false;
  for (let i = 0; i < L.length; i++) {
    const x = L[i], n = L[i + 1];
    if (x.semi && d.chance(drop)) {
      const prev = L[i - 1] && L[i - 1].t;
      if (n === undefined || n.t === '}') { dropped++; if (d.int(2)) s += d.pick(NLS); continue; }
      if (x.dow && !/^[;(\[`+\-*\/.,?<>&|^%=]/.test(n.t) && n.t !== 'in' && n.t !== 'instanceof') { dropped++; s += d.pick([' ', ...NLS]); brk = true; continue; }
      // (a line break after "let" would not end the statement)
      if (starter(n.t) && prev !== 'let' && !(prev === '}' && n.t === 'from') && !/\\/.test(prev || '')) { dropped++; s += d.pick(NLS); brk = true; continue; }
    }
    if (i && !brk) { if (!x.nonl && !x.semi && d.chance(nl)) s += (s.endsWith('/') ? ' ' : '') + d.pick(NLS); else if (!safe(L[i - 1].t, x.t) || d.int(2)) s += ' '; }
    brk = false;
    s += x.t;
  }
  return [s, dropped];
}
module.exports = { NLS, starter, sticky, split, layout };
