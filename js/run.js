'use strict';
// node run.js <property> <tier>        run one check (parent process; forks workers)
// node run.js --replay <file>          run one saved case again
// Each property lives in props/<id>.js and exports
//   plan(tier, env)   -> [{name, cases, gen(draw, ctx, i) -> case|null}]   (null: nothing to test, not counted)
//   check(case, ctx)  -> null | {sig, msg}     sig: stable name of the kind of failure
//   nontrivial(case, ctx) -> boolean           (by `rule`)
//   rule, assumptions, text? (name of the field of a case that is free text, for shrinking)
const fs = require('fs'), path = require('path'), cp = require('child_process');
const { Draw, shrinkTape, shrinkText, hash52 } = require('./engine.js');
const ROOT = path.join(__dirname, '..');
const { Giron } = require('./giron.js');

const load = require('./load.js');
function knownFindings(id) {
  const f = path.join(ROOT, 'known_findings.json');
  return JSON.parse(fs.readFileSync(f, 'utf8')).filter(k => k.property === id && k.status === 'known');
}
function makeCtx(id) {
  const ctx = { g: new Giron(), stats: {}, id, dontcare: 0 };
  ctx.count = k => { ctx.stats[k] = (ctx.stats[k] || 0) + 1; };
  return ctx;
}
function show(v) { const s = typeof v === 'string' ? v : JSON.stringify(v); return s.length > 600 ? s.slice(0, 600) + '…' : s; }

function worker() {
  const { id, tier, seed, w, n, collect, only } = JSON.parse(process.env.GIRON_WORKER);
  const P = load(id), ctx = makeCtx(id);
  const known = new Set(knownFindings(id).map(k => JSON.stringify(k.case)));
  const res = { evaluations: 0, hashes: [], samples: [], fails: [], phases: {}, stats: ctx.stats };
  const seen = new Set(); const buckets = new Map();
  const plan = P.plan(tier, { id, tier, seed });
  outer:
  for (const ph of plan) {
    if (only && ph.name !== only) continue;
    const t0 = process.hrtime.bigint(); let done = 0;
    for (let i = w; i < ph.cases; i += n) {
      const cs = `${seed}/${id}/${ph.name}/${i}`;
      const d = new Draw(cs);
      const c = ph.gen(d, ctx, i);
      if (c === null) continue;
      res.evaluations++; done++;
      const f = P.check(c, ctx);
      if (P.nontrivial(c, ctx)) {
        const js = JSON.stringify(c), h = hash52(js);
        if (!seen.has(h)) {
          seen.add(h);
          if (res.samples.length < 3 || (seen.size % 997 === 0 && res.samples.length < 6)) res.samples.push(show(c));
        }
      }
      if (f && !known.has(JSON.stringify(c))) {
        const b = collect ? f.sig : 'x';
        const prev = buckets.get(b);
        if (prev) prev.count++;
        if (collect && prev && (prev.count > 20 || JSON.stringify(c).length >= prev.len)) continue;
        let best = c, bf = f;
        const until = Date.now() + (collect ? 20000 : 60000); // shrinking may not take long
        const again = (cc) => { if (Date.now() > until) return null; const q = P.check(cc, ctx); return q && (!collect || q.sig === f.sig) && q.sig === f.sig && !known.has(JSON.stringify(cc)) ? q : null; };
        // 1. the tape of choices
        const tape = shrinkTape(d.rec, t => {
          try { const cc = ph.gen(new Draw('', t), ctx, i); if (cc === null) return false; const q = again(cc); if (q) { best = cc; bf = q; return true; } } catch (e) { }
          return false;
        }, collect ? 300 : 1200, until);
        // 2. the text itself
        if (P.text) {
          const s = shrinkText(best[P.text], t => { const cc = Object.assign({}, best, { [P.text]: t }); return !!again(cc); }, collect ? 600 : 3000, until);
          best = Object.assign({}, best, { [P.text]: s }); bf = again(best) || bf;
        }
        const rec = { case: best, fail: bf, seed: cs, original: c, len: JSON.stringify(best).length, count: prev ? prev.count : 1 };
        if (!prev || rec.len < prev.len) buckets.set(b, rec);
        if (!collect) break outer;
      }
    }
    res.phases[ph.name] = { cases: done, ms: Number((process.hrtime.bigint() - t0) / 1000000n) };
  }
  res.fails = [...buckets.entries()].map(([k, v]) => Object.assign({ bucket: k }, v));
  res.calls = ctx.g.calls; res.restarts = ctx.g.restarts;
  fs.writeFileSync(process.env.GIRON_WORKER_OUT + '.hashes', Buffer.from(Float64Array.from(seen).buffer));
  fs.writeFileSync(process.env.GIRON_WORKER_OUT, JSON.stringify(res));
  ctx.g.close();
  process.exit(0);
}

async function main() {
  const args = process.argv.slice(2);
  if (process.env.GIRON_WORKER) return worker();
  if (args[0] === '--replay') {
    const r = JSON.parse(fs.readFileSync(args[1], 'utf8'));
    const P = load(r.property), ctx = makeCtx(r.property);
    const f = P.check(r.case, ctx);
    ctx.g.close();
    console.log(f ? `still fails: ${f.sig}: ${f.msg}` : 'no longer fails');
    process.exit(f ? 1 : 0);
  }
  const id = args[0], tier = args[1] || process.env.VERIF_TIER || 'quick';
  const seed = parseInt(process.env.VERIF_SEED || '1', 10) || 0;
  const collect = !!process.env.VERIF_COLLECT;
  const P = load(id), t0 = Date.now();
  // Saved cases first: known findings, and fixed ones that must not return.
  const ctx = makeCtx(id); let violation = null, violations = 0;
  for (const k of knownFindings(id)) {
    const f = P.check(k.case, ctx);
    if (f && (!k.sig || f.sig === k.sig)) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
    else if (f) violation = { case: k.case, fail: f, seed: 'known finding' };
    else console.log(`note: the known finding "${k.what}" no longer fails`);
  }
  let pinned = 0;
  const pf = path.join(ROOT, 'regress', id + '.json');
  if (!violation && fs.existsSync(pf)) for (const c of JSON.parse(fs.readFileSync(pf, 'utf8'))) {
    pinned++;
    const f = P.check(c, ctx);
    if (f) { violation = { case: c, fail: f, seed: 'regression' }; if (!collect) break; else console.log('regress', JSON.stringify(c), f.sig, f.msg); }
  }
  ctx.g.close();
  const n = parseInt(process.env.VERIF_JOBS || '8', 10);
  const tmp = fs.mkdtempSync(path.join(require('os').tmpdir(), 'verif-'));
  let agg = { evaluations: pinned, samples: [], fails: [], phases: {}, stats: {}, calls: 0, restarts: 0 }; const all = new Set();
  try {
    if (!violation || collect) {
      const ws = [];
      for (let w = 0; w < n; w++) {
        const out = path.join(tmp, 'w' + w);
        const env = Object.assign({}, process.env, { GIRON_WORKER: JSON.stringify({ id, tier, seed, w, n, collect, only: process.env.VERIF_PHASE }), GIRON_WORKER_OUT: out });
        const c = cp.spawn(process.execPath, ['--stack-size=4000', '--max-old-space-size=3000', __filename], { env, stdio: ['ignore', 'inherit', 'inherit'] });
        ws.push(new Promise(r => c.on('exit', (code, sig) => r({ code, sig, out }))));
      }
      for (const r of await Promise.all(ws)) {
        if (r.code !== 0) { console.error(`worker failed: code ${r.code} signal ${r.sig}`); process.exitCode = 3; return; }
        const q = JSON.parse(fs.readFileSync(r.out, 'utf8'));
        agg.evaluations += q.evaluations; agg.samples.push(...q.samples.slice(0, 2)); agg.fails.push(...q.fails); agg.calls += q.calls; agg.restarts += q.restarts;
        for (const k in q.phases) { const p = agg.phases[k] || (agg.phases[k] = { cases: 0, ms: 0 }); p.cases += q.phases[k].cases; p.ms = Math.max(p.ms, q.phases[k].ms); }
        for (const k in q.stats) agg.stats[k] = (agg.stats[k] || 0) + q.stats[k];
        const b = fs.readFileSync(r.out + '.hashes'); const f = new Float64Array(b.buffer, b.byteOffset, b.length / 8);
        for (const h of f) all.add(h);
      }
    }
  } finally { fs.rmSync(tmp, { recursive: true, force: true }); }
  if (collect) {
    const m = new Map();
    for (const f of agg.fails) { const p = m.get(f.bucket); if (!p || f.len < p.len) m.set(f.bucket, Object.assign({}, f, { count: f.count + (p ? p.count : 0) })); else p.count += f.count; }
    for (const [k, f] of [...m].sort((a, b) => b[1].count - a[1].count).slice(0, 40)) console.log(`--- ${f.count}x ${k}\n    ${show(f.case)}\n    ${show(f.fail.msg)}`);
    console.log('evaluations', agg.evaluations, 'distinct', all.size, JSON.stringify(agg.phases), JSON.stringify(agg.stats), 'wall', (Date.now() - t0) / 1000);
    return;
  }
  violations = agg.fails.length + (violation ? 1 : 0);
  if (!violation && agg.fails.length) violation = agg.fails.sort((a, b) => a.len - b.len)[0];
  fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
  const ev = {
    property: id, tier: tier === 'thorough' ? 'thorough' : 'quick', seed, level: 'exploration',
    coverage: {
      evaluations: agg.evaluations, distinct_nontrivial: all.size, rule: P.rule,
      samples: agg.samples.slice(0, 8).concat(agg.samples.length ? [] : ['(none)']),
      saved_cases: pinned, phases: agg.phases, classes: agg.stats, parser_calls: agg.calls, parser_restarts: agg.restarts,
    },
    assumptions: P.assumptions || [], wall_s: (Date.now() - t0) / 1000, violations,
  };
  fs.writeFileSync(path.join(ROOT, 'evidence', id + '.json'), JSON.stringify(ev, null, 1) + '\n');
  if (violation) {
    const dir = path.join(ROOT, 'replays'); fs.mkdirSync(dir, { recursive: true });
    const file = path.join(dir, id + '.json');
    fs.writeFileSync(file, JSON.stringify({ property: id, case: violation.case, failure: violation.fail, seed: violation.seed, original: violation.original, replay: `node js/run.js --replay ${file}` }, null, 1) + '\n');
    console.log(`${id}: ${violation.fail.sig}: ${show(violation.fail.msg)}`);
    console.log(`case: ${show(violation.case)}`);
    console.log(`VIOLATION property=${id} replay=${file}`);
    process.exitCode = 1; return;
  }
  console.log(`${id} ok: ${agg.evaluations} cases, ${all.size} distinct non-trivial, ${ev.wall_s.toFixed(1)} s`);
}
main().catch(e => { console.error(e); process.exit(3); });
