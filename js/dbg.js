'use strict';
// Reads the `{:?}` text of a tree (the only place the spans show) back into objects:
// { $: variant name, field: value, ... }; one-field tuple variants are unwrapped.
function readDebug(s) {
  let i = 0;
  const ws = () => { while (s[i] === ' ') i++; };
  const word = () => { const j = i; while (i < s.length && /[\w.+\-#]/.test(s[i])) i++; return s.slice(j, i); };
  function str() {
    i++;
    const j = i;
    while (s[i] !== '"') i += s[i] === '\\' ? 2 : 1;
    return { $: 'str', text: s.slice(j, i++) };
  }
  function val() {
    ws();
    if (s[i] === '"') return str();
    if (s[i] === '[') {
      i++; const r = [];
      for (;;) { ws(); if (s[i] === ']') { i++; return r; } r.push(val()); ws(); if (s[i] === ',') i++; }
    }
    if (s[i] === '(') { i++; ws(); if (s[i] === ')') i++; return null; }
    const name = word();
    if (!name) throw new Error('debug text at ' + i + ': ' + s.slice(i, i + 30));
    const at = i; ws();
    if (s[i] === '(') { i++; const v = val(); ws(); if (s[i] === ',') { i++; ws(); } if (s[i] !== ')') throw new Error('tuple at ' + i); i++; return v; }
    if (s[i] === '{') {
      i++; const o = { $: name };
      for (;;) { ws(); if (s[i] === '}') { i++; return o; } const f = word(); ws(); if (s[i] !== ':') throw new Error('field at ' + i); i++; o[f.replace(/^r#/, '').replace(/_(\w)/g, (m, c) => c.toUpperCase())] = val(); ws(); if (s[i] === ',') i++; }
    }
    i = at;
    if (name === 'None') return null;
    if (name === 'true' || name === 'false') return name === 'true';
    const n = Number(name);
    return Number.isNaN(n) ? { $: name } : n;
  }
  const r = val(); ws();
  if (i !== s.length) throw new Error('debug text goes on at ' + i);
  return r;
}
module.exports = { readDebug };
