'use strict';
const E = require('./estree.js');
const { ref } = require('./ref.js');
const { babel, modern } = require('./arbiter.js');

const norm = p => p.replace(/\[\d+\]/g, '[]');
// last part of a path that says what kind of place differs
const tail = p => norm(p).split('.').slice(-3).join('.');

function bad(q) { // outcomes that are wrong for any source
  if (q.k === 'ok' || q.k === 'err') return null;
  return { sig: 'crash:' + q.k, msg: q.k + ' ' + (q.msg || '') };
}
// The differential oracle. opts.want: only 'ok' or only 'reject' verdicts count.
function differential(c, ctx, opts = {}) {
  const r = ref(c.src, c.goal), q = ctx.g.parse(c.src, c.goal);
  ctx.last = r.status;
  const b = bad(q);
  if (b) return b;
  ctx.count('reference ' + r.status);
  if (r.status === 'ok') {
    if (opts.want === 'reject') return null;
    if (q.k !== 'ok') {
      const y = babel(c.src, c.goal);
      if (y.fatal || y.errors.length) { ctx.count('arbiter: Babel sides with giron'); return null; }
      return { sig: 'rejected:' + String(q.disp).replace(/token .*/s, 'token'), msg: `valid source rejected: ${q.disp}` };
    }
    const d = E.diff(E.canon(r.ast), E.canon(q.ast));
    if (!d) return null;
    const y = babel(c.src, c.goal);
    if (!y.fatal && !E.diff(E.canon(y.ast), E.canon(q.ast))) { ctx.count('arbiter: Babel sides with giron'); return null; }
    return { sig: 'tree:' + tail(d.path), msg: 'tree differs at ' + E.showDiff(d) };
  }
  if (r.status === 'reject') {
    if (opts.want === 'ok') return null;
    if (q.k !== 'ok') return null;
    const y = babel(c.src, c.goal);
    if (!y.fatal && !y.hard.length && !modern(y.ast)) { ctx.count('arbiter: Babel sides with giron'); return null; }
    return { sig: 'accepted:' + r.msg.replace(/'[^']*'/g, "'_'"), msg: `invalid source accepted (${r.msg})` };
  }
  return null;
}
// Compares giron's trees for two texts; both must be accepted, or both rejected.
function sameTree(a, b) {
  if (a.k !== b.k) return { sig: `verdict:${a.k}/${b.k}`, msg: `${a.k} ${a.disp || ''} against ${b.k} ${b.disp || ''}` };
  if (a.k !== 'ok') return null;
  const d = E.diff(E.canon(a.ast), E.canon(b.ast));
  return d ? { sig: 'tree:' + tail(d.path), msg: E.showDiff(d, 'one', 'other') } : null;
}
module.exports = { E, ref, differential, sameTree, bad, norm, tail };
