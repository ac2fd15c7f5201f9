'use strict';
// Reference parser: acorn at ES2019, with the three-valued verdict described in DESIGN.md:
//   ok        acorn accepts: giron must accept, with this tree
//   reject    the text is outside the grammar, or breaks a rule giron enforces
//   dontcare  the text only breaks early errors giron documents as not implemented
const acorn = require('/opt/veriftools/node/node_modules/acorn');

// raiseRecoverable messages that are grammar (or rules giron enforces); the others are early
// errors ("Add all early errors" is on giron's TODO list).
const ENFORCED = [
  /^Comma is not permitted after the rest element/, /^Parenthesized pattern/, /^Multiple default clauses/,
  /^Binding (member|parenthesized) expression/, /^Binding (eval|arguments) in strict mode/,
  /^Bad escape sequence in untagged template literal/, /^Escape sequence in keyword/,
  /^The keyword '.*' is reserved/, /^Cannot use 'yield' as identifier/, /^Cannot use keyword 'await'/,
  /^Cannot use 'await' as identifier/, /^The only valid meta property/, /must not contain escaped characters/,
  /^getter should have no params/, /^setter should have exactly one param/, /^Setter cannot use rest params/,
  /^Assigning to rvalue/, /^Invalid use of 'super'/,
];
// raise() messages that are early errors outside the grammar
const SOFT = [
  /^Invalid regular expression/, /^Label '.*' is already declared/, /^Constructor can't/, /^Classes may not have/,
  /^Duplicate regular expression flag/, /^Octal literal in strict mode/, /^(Yield|Await) expression cannot be a default value/,
  /^Missing initializer in const/,
  /^Octal literal in template string/, /^super\(\) call outside constructor/, /^'super' keyword outside a method/,
  // raised (not "recoverable") only for `await` in what turns out to be the parameters of an async arrow
  /^Cannot use 'await' as identifier inside an async function/,
];
class Strict extends acorn.Parser {
  skipLineComment(k) { if (k === 4 || (k === 3 && this.input[this.pos] === '-')) this.__html = true; return super.skipLineComment(k); }
}
class Tolerant extends Strict {
  raiseRecoverable(pos, msg) { (this.__soft || (this.__soft = [])).push(msg); }
  // `const a;` is an early error, not a grammar error
  parseVar(node, isFor, kind, allow) {
    if (kind !== 'const' || allow) return super.parseVar(node, isFor, kind, allow);
    super.parseVar(node, isFor, kind, true);
    if (isFor && (this.type.keyword === 'in' || this.isContextual('of'))) return node;
    for (const d of node.declarations) if (!d.init) {
      if (d.id.type !== 'Identifier') this.raise(this.lastTokEnd, 'Complex binding patterns require an initialization value');
      this.raiseRecoverable(d.start, 'Missing initializer in const declaration');
    }
    return node;
  }
}
const { young } = require('./unicode.js');
const opts = goal => ({ ecmaVersion: 2019, sourceType: goal, allowHashBang: false, locations: true });

function strict(src, goal) { return acorn.parse(src, opts(goal)); }

function ref(src, goal) {
  if (young(src)) return { status: 'dontcare', why: 'characters newer than Unicode 8.0' };
  let first;
  try {
    const q = new Strict(opts(goal), src), ast = q.parse();
    if (q.__html) return { status: 'dontcare', why: 'html-like comment' };
    return { status: 'ok', ast };
  } catch (e) {
    if (!(e instanceof SyntaxError)) throw e;
    first = e;
  }
  const msg = e => e.message.replace(/ \(\d+:\d+\)$/, '');
  const p = new Tolerant(Object.assign(opts(goal), { allowSuperOutsideMethod: true }), src);
  let hard = null;
  try { p.parse(); } catch (e) { if (!(e instanceof SyntaxError)) return { status: 'dontcare', why: 'tolerant:' + e.message }; hard = e; }
  if (p.__html) return { status: 'dontcare', why: 'html-like comment' };
  const soft = p.__soft || [];
  const enf = soft.find(m => ENFORCED.some(r => r.test(m)));
  if (enf) return { status: 'reject', msg: enf, first: msg(first) };
  if (!hard) return { status: 'dontcare', why: soft[0] || msg(first) };
  const m = msg(hard);
  if (SOFT.some(r => r.test(m))) return { status: 'dontcare', why: m };
  if (m === 'Invalid number' && /^0\d/.test(src.slice(hard.pos))) return { status: 'dontcare', why: 'legacy octal in strict code' };
  return { status: 'reject', msg: m, pos: hard.pos, first: msg(first) };
}
module.exports = { ref, strict, acorn };
