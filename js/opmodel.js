'use strict';
// Reference model of ECMAScript operator expressions: a token-level recursive-descent parser,
// written from the grammar of the specification, that yields the ESTree node or rejects.
// Tokens are strings. It throws Skip on texts it does not model.
class Skip extends Error { }
class Reject extends Error { }
const LEVEL = { '||': 1, '&&': 2, '|': 3, '^': 4, '&': 5, '==': 6, '!=': 6, '===': 6, '!==': 6, '<': 7, '>': 7, '<=': 7, '>=': 7, 'instanceof': 7, 'in': 7, '<<': 8, '>>': 8, '>>>': 8, '+': 9, '-': 9, '*': 10, '/': 10, '%': 10 };
const UNARY = new Set(['-', '+', '!', '~', 'typeof', 'void', 'delete']);
const ASSIGN = new Set(['=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '>>>=', '|=', '^=', '&=', '**=']);
const WORDOPS = new Set(['in', 'instanceof', 'typeof', 'void', 'delete', 'new', 'this', 'yield', 'await', 'async', 'null', 'true', 'false', 'super', 'function', 'class']);
const isIdent = t => t !== undefined && /^[A-Za-z_$][\w$]*$/.test(t) && !WORDOPS.has(t);

class Model {
  constructor(toks, o = {}) { this.t = toks; this.i = 0; this.in = !o.noIn; this.y = !!o.yield; this.a = !!o.await; }
  get cur() { return this.t[this.i]; }
  eat(x) { if (this.cur === x) { this.i++; return true; } return false; }
  need(x) { if (!this.eat(x)) throw new Reject(`expected ${x}`); }
  inside(f) { const s = this.in; this.in = true; const r = f(); this.in = s; return r; }
  expr() {
    const first = this.assign();
    if (this.cur !== ',') return first;
    const l = [first];
    while (this.eat(',')) l.push(this.assign());
    return { type: 'SequenceExpression', expressions: l };
  }
  arrow(params, async) {
    this.need('=>');
    if (this.cur === '{') throw new Skip();
    const s = [this.y, this.a]; this.y = false; this.a = !!async;
    const body = this.assign();
    [this.y, this.a] = s;
    return { type: 'ArrowFunctionExpression', params, body, async: !!async, expression: true, _kind: 'assign' };
  }
  assign() {
    if (this.y && this.cur === 'yield') return this.yieldExpr();
    if (this.cur === 'async') {
      if (!isIdent(this.t[this.i + 1]) || this.t[this.i + 2] !== '=>') throw new Skip();
      this.i++; const p = this.t[this.i++];
      return this.arrow([{ type: 'Identifier', name: p }], true);
    }
    if (isIdent(this.cur) && this.t[this.i + 1] === '=>') { const p = this.t[this.i++]; return this.arrow([{ type: 'Identifier', name: p }]); }
    if (this.cur === '(') { // arrow parameters?
      let d = 0, j = this.i; for (; j < this.t.length; j++) { if (this.t[j] === '(') d++; else if (this.t[j] === ')' && --d === 0) break; }
      if (this.t[j + 1] === '=>') {
        const ps = this.t.slice(this.i + 1, j);
        if (!ps.every((p, k) => k % 2 ? p === ',' : isIdent(p)) || (ps.length && ps.length % 2 === 0)) {
          if (ps.some(p => p === 'async' || p === '=' || p === '[' || p === '...' || p === '{') || ps[ps.length - 1] === ',') throw new Skip();
          throw new Reject('parameters');
        }
        this.i = j + 1;
        return this.arrow(ps.filter((p, k) => k % 2 === 0).map(name => ({ type: 'Identifier', name })));
      }
    }
    const left = this.cond();
    if (ASSIGN.has(this.cur)) {
      const operator = this.t[this.i];
      if (operator === '=' && left.type === 'ArrayExpression' && !left._paren) throw new Skip();
      if (left.type !== 'Identifier' && left.type !== 'MemberExpression') throw new Reject('target');
      this.i++;
      return { type: 'AssignmentExpression', operator, left, right: this.assign() };
    }
    return left;
  }
  yieldExpr() {
    this.i++;
    const delegate = this.eat('*');
    if (this.cur === '/' || this.cur === '/=') throw new Skip();
    const starts = this.cur !== undefined && (isIdent(this.cur) || /^[0-9"'`./([+\-!~]/.test(this.cur) && !['.', '...', '+=', '-=', '!=', '!==', '/', '/='].includes(this.cur) || ['typeof', 'void', 'delete', 'new', 'this', 'yield', 'await', 'async', 'null', 'true', 'false', 'function', 'class', '{', 'super'].includes(this.cur));
    if (!delegate && !starts) return { type: 'YieldExpression', argument: null, delegate: false };
    return { type: 'YieldExpression', argument: this.assign(), delegate };
  }
  cond() {
    const test = this.binary(1);
    if (!this.eat('?')) return test;
    const consequent = this.inside(() => this.assign());
    this.need(':');
    return { type: 'ConditionalExpression', test, consequent, alternate: this.assign() };
  }
  // left-associative levels 1..10, one recursion per level
  binary(level) {
    if (level > 10) return this.expo();
    let left = this.binary(level + 1);
    while (LEVEL[this.cur] === level && (this.cur !== 'in' || this.in)) {
      const operator = this.t[this.i++];
      const right = this.binary(level + 1);
      left = { type: level <= 2 ? 'LogicalExpression' : 'BinaryExpression', operator, left, right };
    }
    return left;
  }
  expo() {
    const start = this.cur;
    const base = this.unary();
    if (this.cur !== '**') return base;
    if (UNARY.has(start) || (this.a && start === 'await')) throw new Reject('unary operand of **');
    this.i++;
    return { type: 'BinaryExpression', operator: '**', left: base, right: this.expo() };
  }
  unary() {
    const t = this.cur;
    if (UNARY.has(t)) { this.i++; return { type: 'UnaryExpression', operator: t, prefix: true, argument: this.unary() }; }
    if (t === 'await' && this.a) { this.i++; return { type: 'AwaitExpression', argument: this.unary() }; }
    if (t === '++' || t === '--') { this.i++; const argument = this.target(this.unary()); return { type: 'UpdateExpression', operator: t, prefix: true, argument }; }
    const e = this.lhs();
    if (this.cur === '++' || this.cur === '--') { this.target(e); return { type: 'UpdateExpression', operator: this.t[this.i++], prefix: false, argument: e }; }
    return e;
  }
  target(e) { if (e.type !== 'Identifier' && e.type !== 'MemberExpression') throw new Reject('update target'); return e; }
  args() {
    const l = []; this.need('(');
    while (!this.eat(')')) { if (this.cur === '...') throw new Skip(); l.push(this.inside(() => this.assign())); if (this.eat(')')) break; this.need(','); }
    return l;
  }
  newExpr() {
    this.i++;
    if (this.cur === '.') throw new Skip();
    let callee = this.cur === 'new' ? this.newExpr() : this.primary();
    callee = this.suffixes(callee, false);
    return { type: 'NewExpression', callee, arguments: this.cur === '(' ? this.args() : [] };
  }
  lhs() { return this.suffixes(this.cur === 'new' ? this.newExpr() : this.primary(), true); }
  suffixes(e, calls) {
    for (;;) {
      if (this.eat('.')) { const p = this.t[this.i++]; if (p === undefined || !/^[A-Za-z_$][\w$]*$/.test(p)) throw new Reject('property'); e = { type: 'MemberExpression', object: e, property: { type: 'Identifier', name: p }, computed: false }; }
      else if (this.eat('[')) { const property = this.inside(() => this.expr()); this.need(']'); e = { type: 'MemberExpression', object: e, property, computed: true }; }
      else if (this.cur === '(' && calls) e = { type: 'CallExpression', callee: e, arguments: this.args() };
      else if (/^`/.test(this.cur || '')) e = { type: 'TaggedTemplateExpression', tag: e, quasi: this.template() };
      else return e;
    }
  }
  template() { const s = this.t[this.i++].slice(1, -1); return { type: 'TemplateLiteral', quasis: [{ type: 'TemplateElement', value: { raw: s, cooked: s }, tail: true }], expressions: [] }; }
  primary() {
    const t = this.cur;
    if (t === undefined) throw new Reject('end');
    if (t === '/' || t === '/=' || t === '{' || t === 'function' || t === 'class' || t === 'async' || t === 'super' || t === '...') throw new Skip();
    if (t === 'this') { this.i++; return { type: 'ThisExpression' }; }
    if (t === 'null' || t === 'true' || t === 'false') { this.i++; return { type: 'Literal', value: JSON.parse(t), raw: t }; }
    if (/^[0-9]/.test(t)) { this.i++; return { type: 'Literal', value: Number(t), raw: t }; }
    if (/^"/.test(t)) { this.i++; return { type: 'Literal', value: t.slice(1, -1), raw: t }; }
    if (/^`/.test(t)) return this.template();
    if (/^\/.+\//.test(t)) { this.i++; const m = /^\/(.*)\/(\w*)$/.exec(t); return { type: 'Literal', raw: t, regex: { pattern: m[1], flags: m[2] } }; }
    if (t === '(') {
      this.i++; const e = this.inside(() => this.expr()); this.need(')');
      // a parenthesised expression leaves no node
      if (e.type === 'ArrayExpression') return Object.assign({}, e, { _paren: true });
      return e;
    }
    if (t === '[') {
      this.i++; const l = [];
      while (!this.eat(']')) { if (this.cur === ',') { this.i++; l.push(null); continue; } if (this.cur === '...') throw new Skip(); l.push(this.inside(() => this.assign())); if (this.eat(']')) break; this.need(','); }
      return { type: 'ArrayExpression', elements: l };
    }
    if ((t === 'yield' && !this.y) || (t === 'await' && !this.a)) throw new Skip();
    if (isIdent(t)) { this.i++; return { type: 'Identifier', name: t }; }
    throw new Reject(`unexpected ${t}`);
  }
}
// -> {k:'ok', ast} | {k:'reject', why} | {k:'skip'}
function model(toks, level, o) {
  const m = new Model(toks, o);
  try {
    const ast = level === 'expr' ? m.expr() : m.assign();
    if (m.i !== toks.length) return { k: 'reject', why: `left over: ${m.cur}` };
    return { k: 'ok', ast };
  } catch (e) {
    if (e instanceof Skip) return { k: 'skip' };
    if (e instanceof Reject) return { k: 'reject', why: e.message };
    throw e;
  }
}
module.exports = { model, LEVEL, UNARY: [...UNARY], ASSIGN: [...ASSIGN] };
