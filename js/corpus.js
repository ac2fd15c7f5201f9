'use strict';
// Real code as a source of statements and expressions: the JavaScript sources shipped with the
// repository's tests. Only used as extra seeds; every check also works without them.
const fs = require('fs'), path = require('path');
const { acorn } = require('./ref.js');
const BASE = process.env.GIRON_REPO || '/repo';
let cache = null;
function files() {
  const out = [];
  const rec = p => { let es = []; try { es = fs.readdirSync(p, { withFileTypes: true }); } catch (e) { return; } for (const e of es.sort((a, b) => a.name < b.name ? -1 : 1)) { const q = path.join(p, e.name); if (e.isDirectory()) rec(q); else if (/\.js$/.test(e.name)) out.push(q); } };
  rec(path.join(BASE, 'giron', 'tests'));
  return out;
}
// {stmts: [text], exprs: [text], files: [{name, text}]}
function corpus() {
  if (cache) return cache;
  const r = { stmts: [], exprs: [], files: [] }, seen = new Set();
  for (const f of files()) {
    let text; try { text = fs.readFileSync(f, 'utf8'); } catch (e) { continue; }
    r.files.push({ name: path.basename(f), text });
    let ast; try { ast = acorn.parse(text, { ecmaVersion: 2019, sourceType: 'script', allowReturnOutsideFunction: true }); } catch (e) { continue; }
    const rec = (n, inFn) => {
      if (Array.isArray(n)) { for (const x of n) rec(x, inFn); return; }
      if (!n || typeof n.type !== 'string') return;
      const len = n.end - n.start;
      if (len <= 400 && len >= 3) {
        const s = text.slice(n.start, n.end);
        if (!seen.has(s)) {
          seen.add(s);
          if (/Statement$|Declaration$/.test(n.type) && n.type !== 'ReturnStatement' && n.type !== 'BreakStatement' && n.type !== 'ContinueStatement' && r.stmts.length < 4000) r.stmts.push(s);
          else if (/Expression$/.test(n.type) && len <= 200 && r.exprs.length < 4000) r.exprs.push(s);
        }
      }
      for (const k of Object.keys(n)) if (n[k] && typeof n[k] === 'object') rec(n[k], inFn);
    };
    rec(ast.body, false);
  }
  const ok = s => { try { acorn.parse(s, { ecmaVersion: 2019, sourceType: 'script' }); return true; } catch (e) { return false; } };
  r.stmts = r.stmts.filter(ok); r.exprs = r.exprs.filter(s => ok('(' + s + ')'));
  return cache = r;
}
module.exports = { corpus };
