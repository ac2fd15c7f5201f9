'use strict';
// Generator of ES2019 programs as token lists. Tokens are strings; SEMI is a semicolon that ASI
// may supply; NONL forbids a line break between its neighbours.
const SEMI = { semi: true }, NONL = { nonl: true }, DOSEMI = { semi: true, dow: true };

const PLAIN = ['a', 'b', 'c', 'x', 'y', 'z', 'foo', 'bar', '$', '_', 'a1', '$_', 'Object'];
const CONTEXTUAL = ['of', 'get', 'set', 'async', 'from', 'as', 'target', 'eval', 'arguments', 'undefined', 'NaN', 'constructor', 'prototype', 'meta', 'constructorx', 'ofx', 'newx', 'in_', 'inx', 'ifx', 'dox'];
const UNI = ['é', 'π', '变量', 'ñandú', 'ª', 'Ⅷ', '℘', 'a\u200c', 'a\u200d', 'x\u0301', '𠮷', '𝒜b', 'ﬀ', 'ͺ'];
const SLOPPY = ['let', 'static', 'implements', 'interface', 'package', 'private', 'protected', 'public'];
const RESERVED = ['break', 'case', 'catch', 'class', 'const', 'continue', 'debugger', 'default', 'delete', 'do', 'else', 'enum', 'export', 'extends', 'false', 'finally', 'for', 'function', 'if', 'import', 'in', 'instanceof', 'new', 'null', 'return', 'super', 'switch', 'this', 'throw', 'true', 'try', 'typeof', 'var', 'void', 'while', 'with'];
const NUMS = ['0', '1', '42', '1.5', '.5', '1.', '1e3', '1E-7', '0x1F', '0Xff', '0b101', '0o17', '123456789', '0.0', '5e+2', '9007199254740993', '0xdeadbeefcafe'];
const REGEX = ['/a/', '/[/]/g', '/\\//', '/=/i', '/(?:)/', '/[^\\]]*/u', '/a{1,2}/y', '/}/', '/{/', '/\\{}/', '/"/', "/'/", '/`/', '/a|b/gimsuy', '/[)]}/', '/=>/', '/\\/*/', '/[*/]/', '/ {0,2}x/', '/\\u{61}/u', '/é/', '/--/', '/;/', '/\\\\/', '/[\\\\/]/', '/$/m', '/(?=x)/s', '/^`${/'];
const BINOPS = { '||': 1, '&&': 2, '|': 3, '^': 4, '&': 5, '==': 6, '!=': 6, '===': 6, '!==': 6, '<': 7, '>': 7, '<=': 7, '>=': 7, 'instanceof': 7, 'in': 7, '<<': 8, '>>': 8, '>>>': 8, '+': 9, '-': 9, '*': 10, '/': 10, '%': 10, '**': 11 };
const BIN = Object.keys(BINOPS);
const UNARY = ['-', '+', '!', '~', 'typeof', 'void', 'delete'];
const ASSIGN = ['=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '>>>=', '|=', '^=', '&=', '**='];

class Gen {
  constructor(d, o = {}) {
    this.d = d; this.out = []; this.n = 0;
    this.fuel = o.fuel || 30;
    this.maxDepth = o.maxDepth || 14; this.depth = 0;
    this.goal = o.goal || 'script';
    this.w = Object.assign({ exotic: 6 }, o.w); // weights (percent) for rare spellings
    this.c = Object.assign({ strict: this.goal === 'module', yield: false, await: false, fn: false, loop: false, sw: false, labels: [], superCall: false, superProp: false, newTarget: false, noIn: false, params: false, module: this.goal === 'module' }, o.c);
    this.exports = new Set(); this.declared = new Set(); this.needed = new Set();
  }
  e(...t) { for (const x of t) this.out.push(x); }
  withc(o, f) { const s = this.c; this.c = Object.assign({}, s, o); const r = f(); this.c = s; return r; }
  inside(f) { return this.withc({ noIn: false }, f); }
  W(k, def) { const v = this.w[k]; return v === undefined ? def : v; }
  get lean() { return this.fuel <= 0 || this.depth >= this.maxDepth; }
  deeper(f) { this.depth++; this.fuel--; f(); this.depth--; }
  fresh() { return 'v' + (this.n++); }

  // ---- names ----
  allowed(w) {
    if (w === 'yield') return !this.c.strict && !this.c.yield;
    if (w === 'await') return !this.c.module && !this.c.await && !this.c.noAwaitId;
    return true;
  }
  name() { // a reference
    const d = this.d;
    if (!d.chance(this.w.exotic * 3)) return d.pick(PLAIN);
    const k = d.int(6);
    if (k === 0) return d.pick(CONTEXTUAL);
    if (k === 1) return d.pick(UNI);
    if (k === 2) return this.c.strict ? d.pick(CONTEXTUAL) : d.pick(SLOPPY);
    if (k === 3) { const n = d.pick(['yield', 'await']); return this.allowed(n) ? n : d.pick(PLAIN); }
    if (k === 4) return this.escaped(d.pick([...PLAIN.slice(0, 9), ...CONTEXTUAL.slice(0, 7)]));
    return 'async';
  }
  escaped(w) {
    const d = this.d, cs = Array.from(w), i = d.int(cs.length), cp = cs[i].codePointAt(0);
    const h = cp.toString(16);
    cs[i] = d.int(2) && cp < 0x10000 ? '\\u' + h.padStart(4, '0') : `\\u{${'0'.repeat(d.int(4))}${d.int(2) ? h.toUpperCase() : h}}`;
    return cs.join('');
  }
  bindingName() { // unique unless exotic
    const d = this.d;
    if (!d.chance(this.w.exotic)) return this.fresh();
    const s = this.n++;
    if (d.int(2)) return d.pick(UNI) + s;
    return d.pick(['of', 'get', 'async', 'as', 'from', 'static', 'letx', 'newt', '$', '_']) + s;
  }
  varName() { // vars may repeat
    const d = this.d;
    if (d.chance(this.w.exotic)) { const n = this.name(); if (n !== 'eval' && n !== 'arguments') return n; }
    return d.chance(30) ? 'v' + (this.n++) : d.pick(PLAIN);
  }
  propWord() { const d = this.d; return d.weigh([[6, d.pick(PLAIN)], [2, d.pick(CONTEXTUAL)], [2, d.pick(RESERVED)], [1, d.pick(SLOPPY)], [1, d.pick(UNI)], [1, this.escaped(d.pick(RESERVED))], [1, d.pick(['yield', 'await', 'async', 'get', 'set', 'static', 'of', 'let'])]]); }
  propKey(noCtor) { // emits a property name
    const d = this.d, k = d.int(10);
    if (k < 6) { let w = this.propWord(); if (noCtor && /constructor|prototype/.test(w)) w = 'm'; this.e(w); }
    else if (k === 6) { const q = this.string(); this.e(noCtor && /constructor|prototype/.test(q) ? '"m"' : q); }
    else if (k === 7) this.e(d.pick(NUMS));
    else { this.e('['); this.inside(() => this.assign()); this.e(']'); }
  }
  string() {
    const d = this.d, q = d.pick(['"', "'"]);
    const n = d.int(5); let s = '';
    for (let i = 0; i < n; i++) s += d.weigh([[8, d.pick(['a', 'b', ' ', '0', '1', 'é', '/', '{', '}', '`', '$', ';', '//', '/*', '☃', '\u2028'])], [1, q === '"' ? "'" : '"'], [3, d.pick(['\\n', '\\t', '\\\\', '\\"', "\\'", '\\x41', '\\u0041', '\\u{1F600}', '\\q', '\\0', '\\\n', '\\\r\n', '\\v', '\\\u2029'])]]);
    s = s.replace(/\\0(?=[0-9])/g, '\\0z');
    return q + s + q;
  }
  num() { const d = this.d; if (!this.c.strict && d.chance(4)) return d.pick(['017', '089', '00', '08.5']); return d.pick(NUMS); }
  tplText() {
    const d = this.d, n = d.int(4); let s = '';
    for (let i = 0; i < n; i++) s += d.weigh([[6, d.pick(['a', ' ', '{', '}', '"', "'", '/', '$ ', '$$ ', 'é', '\n', '//', '\r\n', '\r'])], [2, d.pick(['\\`', '\\${', '\\n', '\\\n', '\\u0041', '\\0'])]]);
    return s.replace(/\\0(?=[0-9])/g, '\\0z').replace(/\$\{/g, '$ {').replace(/\\\$ \{/g, '\\${');
  }
  template() {
    const d = this.d;
    if (this.lean || d.int(3) === 0) { this.e('`' + this.tplText() + '`'); return; }
    this.e('`' + this.tplText() + '${');
    const n = d.range(1, 2);
    for (let i = 0; i < n; i++) { this.inside(() => this.expr()); this.e('}' + this.tplText() + (i === n - 1 ? '`' : '${')); }
  }
  // ---- expressions ----
  expr() {
    if (!this.lean && this.d.chance(8)) { this.deeper(() => { this.assign(); const n = this.d.range(1, 2); for (let i = 0; i < n; i++) { this.e(','); this.assign(); } }); }
    else this.assign();
  }
  assign() {
    const d = this.d;
    if (this.lean) { this.leaf(); return; }
    this.deeper(() => {
      const c = this.c;
      d.weigh([
        [this.W('cond', 40), () => this.cond()],
        [this.W('arrow', 8), () => this.arrow()],
        [this.W('assignment', 8), () => this.assignment()],
        [c.yield && !c.params ? this.W('yield', 12) : 0, () => this.yieldExpr()],
      ])();
    });
  }
  yieldExpr() {
    const d = this.d;
    // a bare yield is only put where something that cannot start an expression follows
    const k = d.int(5);
    if (k === 0) { this.e('(', 'yield', ')'); return; }
    this.e('yield', NONL);
    if (k === 1) this.e('*');
    this.assign();
  }
  assignment() {
    const d = this.d;
    const k = d.chance(this.W('asgPattern', 25)) ? 0 : 1 + d.int(3);
    if (k === 0) { this.pattern(true); this.e('='); }
    else { this.target(); this.e(k < 3 ? '=' : d.pick(ASSIGN)); }
    this.assign();
  }
  target() { // simple assignment target
    const d = this.d;
    if (this.lean || d.int(3) > 0) { let n = this.name(); if (this.c.strict && (n === 'eval' || n === 'arguments')) n = 'x'; if (d.chance(6)) this.e('(', n, ')'); else this.e(n); return; }
    const par = d.chance(6); if (par) this.e('(');
    const g = () => { this.memberBase(); this.memberTail(); };
    if (par) this.inside(g); else g();
    if (par) this.e(')');
  }
  memberBase() { this.paren1(() => this.lhs(true)); }
  memberTail() {
    const d = this.d;
    if (d.int(3) > 0) { this.e('.', this.propWord()); } else { this.e('['); this.inside(() => this.expr()); this.e(']'); }
  }
  paren1(f) { f(); }
  cond() {
    const d = this.d;
    if (this.lean || !d.chance(10)) { this.binary(0); return; }
    this.binary(0); this.e('?'); this.inside(() => this.assign()); this.e(':'); this.assign();
  }
  binary(min) {
    const d = this.d;
    if (this.lean || !d.chance(28)) { this.unary(); return; }
    this.deeper(() => {
      let ops = BIN.filter(o => BINOPS[o] > min || (min === 0)); if (this.c.noIn) ops = ops.filter(o => o !== 'in');
      if (!ops.length) { this.unary(); return; }
      const op = this.c.head && !this.c.noIn && d.chance(35) && ops.includes('in') ? 'in' : d.pick(ops), p = BINOPS[op];
      if (op === '**') { this.update(); this.e(op); d.chance(30) ? this.binary(p - 1) : this.unary(); return; }
      this.binary(p - 1); this.e(op); this.binary(p);
    });
  }
  unary() {
    const d = this.d;
    if (this.lean || !d.chance(16)) { this.update(); return; }
    this.deeper(() => {
      if (this.c.await && !this.c.params && d.chance(40)) { this.e('await'); this.unary(); return; }
      let op = d.pick(UNARY);
      this.e(op);
      if (op === 'delete' && this.c.strict) { this.memberBase(); this.memberTail(); } else this.unary();
    });
  }
  update() {
    const d = this.d;
    if (this.lean || !d.chance(8)) { this.lhs(); return; }
    this.deeper(() => { if (d.int(2)) { this.e(d.pick(['++', '--'])); this.target(); } else { this.target(); this.e(NONL, d.pick(['++', '--'])); } });
  }
  lhs(noNew) {
    const d = this.d;
    if (this.lean) { this.leaf(); return; }
    this.deeper(() => {
      d.weigh([[30, () => this.primary()], [8, () => this.newExpr(noNew)], [this.c.superProp ? 6 : 0, () => { this.e('super'); this.memberTail(); }], [this.c.superCall ? 4 : 0, () => { this.e('super'); this.args(); }], [this.c.newTarget ? 3 : 0, () => this.e('new', '.', 'target')]])();
      let n = d.int(4) === 0 ? d.range(1, 3) : d.int(2) ? 1 : 0;
      while (n-- > 0) this.tail();
    });
  }
  tail() {
    const d = this.d;
    d.weigh([[5, () => this.memberTail()], [4, () => this.args()], [1, () => this.template()]])();
  }
  newExpr(must) {
    const d = this.d;
    this.e('new');
    const args = must || d.int(4) > 0;
    if (d.chance(15)) this.newExpr(args); else { if (this.lean) this.leaf(); else this.primary(true); let n = d.int(3); while (n-- > 0) d.chance(12) ? this.template() : this.memberTail(); }
    if (args) this.args();
  }
  args() {
    const d = this.d; this.e('(');
    this.inside(() => {
      const n = this.lean ? d.int(2) : d.int(4);
      for (let i = 0; i < n; i++) { if (i) this.e(','); if (d.chance(12)) this.e('...'); this.assign(); }
      if (n && d.chance(6)) this.e(',');
    });
    this.e(')');
  }
  leaf() {
    const d = this.d;
    const k = d.int(12);
    if (k < 5) this.e(this.name());
    else if (k < 7) this.e(this.num());
    else if (k === 7) this.e(this.string());
    else if (k === 8) this.e(d.pick(['this', 'null', 'true', 'false']));
    else if (k === 9) this.e(d.pick(REGEX));
    else if (k === 10) this.e('`' + this.tplText() + '`');
    else this.e(d.pick(PLAIN));
  }
  primary(noImportantParens) {
    const d = this.d;
    if (this.lean) { this.leaf(); return; }
    d.weigh([
      [this.W('leaf', 30), () => this.leaf()],
      [8, () => { this.e('('); this.inside(() => this.expr()); this.e(')'); }],
      [this.W('array', 8), () => this.array()], [this.W('object', 10), () => this.object()],
      [this.W('functionExpr', 5), () => this.functionExpr()], [this.W('classExpr', 4), () => this.classLike(false)],
      [this.W('template', 4), () => this.template()], [this.W('regex', 2), () => this.e(d.pick(REGEX))],
    ])();
  }
  array() {
    const d = this.d; this.e('[');
    this.inside(() => {
      const n = d.int(4);
      for (let i = 0; i < n; i++) { if (d.chance(10)) { this.e(','); continue; } if (d.chance(10)) this.e('...'); this.assign(); if (i < n - 1 || d.chance(15)) this.e(','); }
    });
    this.e(']');
  }
  object() {
    const d = this.d; this.e('{');
    this.inside(() => {
      const n = d.int(4);
      for (let i = 0; i < n; i++) {
        d.weigh([
          [8, () => { this.propKey(); this.e(':'); this.assign(); }],
          [4, () => { let nm = this.name(); this.e(nm); }],
          [5, () => this.method(false)],
          [2, () => { this.e('...'); this.assign(); }],
        ])();
        if (i < n - 1 || d.chance(15)) this.e(',');
      }
    });
    this.e('}');
  }
  // method of an object (cls=false) or class (cls: {derived})
  method(cls, isStatic) {
    const d = this.d, kind = d.weigh([[6, 'm'], [3, 'get'], [3, 'set'], [2, 'gen'], [2, 'async'], [1, 'asyncgen']]);
    const base = { fn: true, loop: false, sw: false, labels: [], superProp: true, superCall: false, newTarget: true, noIn: false, params: false };
    const key = () => this.propKey(!!cls);
    if (kind === 'get' || kind === 'set') {
      this.e(kind); key(); this.e('(');
      const simple = true;
      const us = kind === 'get' && d.chance(6);
      this.withc(Object.assign({}, base, { yield: false, await: false, strict: this.c.strict || us }), () => {
        if (kind === 'set') { this.withc({ params: true }, () => { if (d.chance(30)) { this.bindingElement(); } else this.e(this.bindingName()); }); }
        this.e(')'); this.body(us);
      });
      return;
    }
    const gen = kind === 'gen' || kind === 'asyncgen', asy = kind === 'async' || kind === 'asyncgen';
    if (asy) this.e('async', NONL);
    if (gen) this.e('*');
    key();
    this.paramsAndBody(Object.assign({}, base, { yield: gen, await: asy }));
  }
  paramsAndBody(base) {
    const d = this.d, simple = !d.chance(this.W('complexParams', 25)), us = simple && d.chance(5);
    this.withc(Object.assign({}, base, { strict: this.c.strict || us }), () => {
      this.e('(');
      this.withc({ params: true, noIn: false }, () => {
        const n = d.int(4);
        for (let i = 0; i < n; i++) {
          if (simple) this.e(this.bindingName());
          else if (i === n - 1 && d.chance(30)) { this.e('...'); d.int(3) ? this.e(this.bindingName()) : this.pattern(false); break; }
          else this.bindingElement();
          if (i < n - 1 || d.chance(6)) this.e(',');
        }
      });
      this.e(')');
      this.body(us);
    });
  }
  body(us) {
    this.e('{');
    if (us) this.e(this.d.pick(['"use strict"', "'use strict'"]), SEMI);
    const n = this.lean ? this.d.int(2) : this.d.int(4);
    for (let i = 0; i < n; i++) this.stmt(true);
    this.e('}');
  }
  fnBase(gen, asy) { return { fn: true, loop: false, sw: false, labels: [], superProp: false, superCall: false, newTarget: true, noIn: false, params: false, yield: gen, await: asy, noAwaitId: false }; }
  functionExpr() {
    const d = this.d, gen = d.chance(this.W('genFn', 20)), asy = d.chance(this.W('asyncFn', 20));
    if (asy) this.e('async', NONL);
    this.e('function'); if (gen) this.e('*');
    if (d.int(2)) this.e(this.withc({ yield: gen, await: asy }, () => this.bindingName()));
    this.deeper(() => this.paramsAndBody(this.fnBase(gen, asy)));
  }
  functionDecl(o = {}) {
    const d = this.d, gen = !o.plain && d.chance(this.W('genFn', 20)), asy = !o.plain && d.chance(this.W('asyncFn', 20));
    if (asy) this.e('async', NONL);
    this.e('function'); if (gen) this.e('*');
    if (!(o.anon && d.int(3) === 0)) this.e(this.bindingName());
    this.deeper(() => this.paramsAndBody(this.fnBase(gen, asy)));
  }
  classLike(decl, anon) {
    const d = this.d;
    this.e('class');
    this.withc({ strict: true }, () => {
      if (decl ? !(anon && d.int(3) === 0) : d.int(2)) this.e(this.bindingName());
      const der = d.chance(30);
      if (der) { this.e('extends'); this.deeper(() => this.inside(() => this.lhs())); }
      this.e('{');
      const n = d.int(4); let ctor = false;
      for (let i = 0; i < n; i++) {
        if (d.chance(8)) { this.e(';'); continue; }
        if (!ctor && d.chance(12)) {
          ctor = true; this.e(d.pick(['constructor', 'constructor', '"constructor"']));
          this.deeper(() => this.paramsAndBody(Object.assign(this.fnBase(false, false), { superProp: true, superCall: der })));
          continue;
        }
        if (d.chance(25)) this.e('static');
        this.deeper(() => this.method({ derived: der }));
      }
      this.e('}');
    });
  }
  arrow() {
    const d = this.d, asy = d.chance(20), k = d.int(3), simple = !d.chance(this.W('complexParams', 33)), blk = d.int(2);
    if (asy) this.e('async', NONL);
    const us = blk && simple && d.chance(4);
    // parameters belong to the outer function for yield/await purposes
    this.withc({ params: true, strict: this.c.strict || us, noAwaitId: asy || this.c.noAwaitId }, () => {
      if (simple && k === 0) this.e(this.bindingName());
      else {
        this.e('(');
        this.withc({ noIn: false }, () => {
          const n = d.int(4);
          for (let i = 0; i < n; i++) {
            if (simple) this.e(this.bindingName());
            else if (i === n - 1 && d.chance(30)) { this.e('...'); d.int(3) ? this.e(this.bindingName()) : this.pattern(false); break; }
            else this.bindingElement();
            if (i < n - 1 || d.chance(6)) this.e(',');
          }
        });
        this.e(')');
      }
    });
    this.e(NONL, '=>');
    const nc = { yield: false, await: asy, fn: true, loop: false, sw: false, labels: [], params: false, strict: this.c.strict || us, noAwaitId: false };
    this.withc(nc, () => {
      if (blk) this.withc({ noIn: false }, () => this.body(us));
      else { const i = this.out.length; this.assign(); if (this.out[i] === '{') { this.out.splice(i, 0, '('); this.e(')'); } }
    });
  }
  // ---- patterns ----
  bindingElement() {
    const d = this.d;
    if (this.lean || d.int(2)) this.e(this.bindingName()); else this.pattern(false);
    if (d.chance(35)) { this.e('='); this.inside(() => this.assign()); }
  }
  // asg: assignment pattern (targets), else binding pattern
  pattern(asg) { this.deeper(() => this.inside(() => this.d.int(2) ? this.objPattern(asg) : this.arrPattern(asg))); }
  patElem(asg) {
    const d = this.d;
    if (!asg) { this.bindingElement(); return; }
    if (!this.lean && d.chance(25)) this.pattern(true); else this.target();
    if (d.chance(30)) { this.e('='); this.assign(); }
  }
  arrPattern(asg) {
    const d = this.d; this.e('['); const n = d.int(4);
    for (let i = 0; i < n; i++) {
      if (d.chance(10)) { this.e(','); continue; }
      if (i === n - 1 && d.chance(25)) { this.e('...'); if (asg) { !this.lean && d.chance(25) ? this.pattern(true) : this.target(); } else d.chance(30) ? this.pattern(false) : this.e(this.bindingName()); break; }
      this.patElem(asg);
      if (i < n - 1 || d.chance(12)) this.e(',');
    }
    this.e(']');
  }
  objPattern(asg) {
    const d = this.d; this.e('{'); const n = d.int(4);
    for (let i = 0; i < n; i++) {
      if (i === n - 1 && d.chance(20)) { this.e('...'); asg ? this.target() : this.e(this.bindingName()); break; }
      if (d.int(2)) { let nm = asg ? this.name() : this.bindingName(); if (this.c.strict && /^(eval|arguments)$/.test(nm)) nm = 'x'; this.e(nm); if (d.chance(35)) { this.e('='); this.assign(); } }
      else { this.propKey(); this.e(':'); this.patElem(asg); }
      if (i < n - 1 || d.chance(12)) this.e(',');
    }
    this.e('}');
  }
  // ---- statements ----
  exprStmt() {
    const i = this.out.length;
    this.withc({ noIn: false }, () => this.expr());
    this.guardStart(i, true);
    this.e(SEMI);
  }
  guardStart(i, stmt) {
    const o = this.out, t = o[i];
    if (t === '{' || t === 'function' || t === 'class' || t === 'let' || (t === 'async' && o.slice(i + 1, i + 3).includes('function')) || (stmt && typeof t === 'string' && /^["']/.test(t))) { o.splice(i, 0, '('); this.e(')'); }
  }
  sub(f) { // a nested statement position (not a declaration)
    this.withc({}, () => f ? f() : this.stmt(false));
  }
  stmt(list) {
    const d = this.d, c = this.c;
    if (this.lean) { d.weigh([[6, () => this.exprStmt()], [1, () => this.e(';')], [1, () => { this.e('{', '}'); }]])(); return; }
    this.deeper(() => {
      d.weigh([
        [this.W('exprStmt', 14), () => this.exprStmt()],
        [this.W('var', 6), () => this.varStmt()],
        [list ? this.W('lexical', 6) : 0, () => this.lexical()],
        [list ? this.W('function', 4) : 0, () => this.functionDecl()],
        [list ? this.W('class', 3) : 0, () => this.classLike(true)],
        [this.W('if', 5), () => this.ifStmt()], [this.W('for', 6), () => this.forStmt()],
        [2, () => this.whileStmt()], [3, () => this.doStmt()],
        [this.W('switch', 3), () => this.switchStmt()], [this.W('try', 4), () => this.tryStmt()],
        [3, () => this.block()], [1, () => this.e(';')], [1, () => this.e('debugger', SEMI)],
        [2, () => { this.e('throw', NONL); this.withc({ noIn: false }, () => this.expr()); this.e(SEMI); }],
        [c.fn ? 4 : 0, () => { this.e('return'); if (d.int(3)) { this.e(NONL); this.withc({ noIn: false }, () => this.expr()); } this.e(SEMI); }],
        [c.loop ? 3 : 0, () => this.jump('continue')],
        [c.loop || c.sw || c.labels.length ? 3 : 0, () => this.jump('break')],
        [3, () => this.labelled(list)],
        [c.strict ? 0 : 1, () => { this.e('with', '('); this.withc({ noIn: false }, () => this.expr()); this.e(')'); this.sub(); }],
      ])();
    });
  }
  jump(k) {
    const d = this.d, c = this.c;
    const ls = c.labels.filter(l => k === 'break' || l.loop);
    const bare = k === 'continue' ? c.loop : c.loop || c.sw;
    this.e(k);
    if (ls.length && (!bare || d.int(2))) this.e(NONL, d.pick(ls).name);
    this.e(SEMI);
  }
  labelled(list) {
    const d = this.d;
    let nm = 'L' + this.c.labels.length + (d.chance(10) ? d.pick(['é', '$', 'of']) : '');
    this.e(nm, ':');
    const k = d.int(4);
    if (k === 0) this.withc({ labels: this.c.labels.concat({ name: nm, loop: true }) }, () => this.sub(() => d.pick([() => this.forStmt(), () => this.whileStmt(), () => this.doStmt()])()));
    else if (k === 1 && list && !this.c.strict) this.functionDecl({ plain: true });
    else this.withc({ labels: this.c.labels.concat({ name: nm, loop: false }) }, () => this.sub());
  }
  block() { this.e('{'); const n = this.d.int(4); for (let i = 0; i < n; i++) this.stmt(true); this.e('}'); }
  declarator(kind, lex) {
    const d = this.d;
    if (!this.lean && d.chance(this.W('declPattern', 25))) { this.pattern(false); this.e('='); this.assign(); return; }
    const nm = lex ? this.bindingName() : this.varName(); this.e(nm);
    if (kind === 'const' || d.int(3)) { this.e('='); this.assign(); }
  }
  declList(kind) { const n = this.d.weigh([[6, 1], [2, 2], [1, 3]]); for (let i = 0; i < n; i++) { if (i) this.e(','); this.declarator(kind, kind !== 'var'); } }
  varStmt() { this.e('var'); this.withc({ noIn: false }, () => this.declList('var')); this.e(SEMI); }
  lexical() { const k = this.d.pick(['let', 'const']); this.e(k); this.withc({ noIn: false }, () => this.declList(k)); this.e(SEMI); }
  paren(f) { this.e('('); this.withc({ noIn: false }, f || (() => this.expr())); this.e(')'); }
  ifStmt() {
    const d = this.d; this.e('if'); this.paren();
    const els = d.int(2);
    const branch = () => { if (!this.c.strict && d.chance(4)) this.functionDecl({ plain: true }); else this.sub(); };
    if (els) { // avoid a dangling else being captured: brace half of the time
      if (d.int(2)) { this.block(); } else { const i = this.out.length; branch(); if (this.dangling(i)) { this.out.splice(i, 0, '{'); this.e('}'); } }
      this.e('else'); branch();
    } else branch();
  }
  dangling(i) { return this.out.slice(i).includes('if'); }
  loopBody() { this.withc({ loop: true, noIn: false, head: false }, () => this.sub()); }
  forStmt() {
    const d = this.d, k = d.int(3);
    this.e('for');
    if (k === 0) {
      this.e('(');
      const h = d.int(4);
      if (h === 1) { this.e('var'); this.withc({ noIn: true, head: true }, () => this.declList('var')); }
      else if (h === 2) { const kw = d.pick(['let', 'const']); this.e(kw); this.withc({ noIn: true, head: true }, () => this.declList(kw)); }
      else if (h === 3) { const i = this.out.length; this.withc({ noIn: true, head: true }, () => this.expr()); if (this.out[i] === 'let') { this.out.splice(i, 0, '('); this.e(')'); } }
      this.e(';'); if (d.int(3)) this.withc({ noIn: false }, () => this.expr());
      this.e(';'); if (d.int(3)) this.withc({ noIn: false }, () => this.expr());
      this.e(')');
    } else {
      const aw = k === 2 && this.c.await && !this.c.params && d.int(2);
      if (aw) this.e('await');
      this.e('(');
      const h = d.int(4);
      if (h < 2) { this.e(h ? d.pick(['let', 'const']) : 'var'); d.chance(30) ? this.withc({ head: true }, () => this.pattern(false)) : this.e(this.bindingName()); }
      else if (h === 2) { const i = this.out.length; this.target(); if (this.out[i] === 'let' || (this.out[i] === 'async' && this.out.length === i + 1)) this.out[i] = 'x'; }
      else this.withc({ head: true }, () => this.pattern(true));
      if (k === 1) { this.e('in'); this.withc({ noIn: false }, () => this.expr()); } else { this.e('of'); this.withc({ noIn: false }, () => this.assign()); }
      this.e(')');
    }
    this.loopBody();
  }
  whileStmt() { this.e('while'); this.paren(); this.loopBody(); }
  doStmt() { this.e('do'); this.loopBody(); this.e('while'); this.paren(); this.e(DOSEMI); }
  switchStmt() {
    const d = this.d; this.e('switch'); this.paren(); this.e('{');
    const n = d.int(4), def = d.int(4);
    this.withc({ sw: true, noIn: false }, () => {
      for (let i = 0; i < n; i++) {
        if (i === def) this.e('default', ':'); else { this.e('case'); this.expr(); this.e(':'); }
        const m = d.int(3); for (let j = 0; j < m; j++) this.stmt(true);
      }
    });
    this.e('}');
  }
  tryStmt() {
    const d = this.d, k = d.int(3); this.e('try'); this.block();
    if (k !== 1) { this.e('catch'); if (d.int(4)) { this.e('('); d.chance(30) ? this.pattern(false) : this.e(this.bindingName()); this.e(')'); } this.block(); }
    if (k !== 0) { this.e('finally'); this.block(); }
  }
  // ---- modules ----
  exportName() { let w, i = 0; do { w = this.propWord(); if (i++ > 5) w = 'e' + this.n++; } while (this.exports.has(w)); this.exports.add(w); return w; }
  moduleItem() {
    const d = this.d;
    d.weigh([[this.W('moduleStmt', 6), () => this.stmt(true)], [this.W('import', 5), () => this.importDecl()], [this.W('export', 7), () => this.exportDecl()]])();
  }
  importDecl() {
    const d = this.d, k = d.int(6); this.e('import');
    const def = () => this.e(this.bindingName());
    const ns = () => this.e('*', 'as', this.bindingName());
    const named = () => { this.e('{'); const n = d.int(4); for (let i = 0; i < n; i++) { if (d.int(2)) this.e(this.bindingName()); else this.e(this.propWord(), 'as', this.bindingName()); if (i < n - 1 || d.chance(20)) this.e(','); } this.e('}'); };
    if (k === 1) def(); else if (k === 2) ns(); else if (k === 3) named(); else if (k === 4) { def(); this.e(','); ns(); } else if (k === 5) { def(); this.e(','); named(); }
    if (k) this.e('from');
    this.e(this.string(), SEMI);
  }
  exportDecl() {
    const d = this.d; this.e('export');
    const k = d.int(8);
    const named = (local) => {
      this.e('{'); const n = d.int(4);
      for (let i = 0; i < n; i++) {
        if (local) { const nm = 'w' + (this.n++); this.needed.add(nm); if (d.int(2)) this.e(nm); else this.e(nm, 'as', this.exportName()); }
        else if (d.int(2)) this.e(this.exportName()); else this.e(this.propWord(), 'as', this.exportName());
        if (i < n - 1 || d.chance(20)) this.e(',');
      }
      this.e('}');
    };
    if (k === 0) { this.e('*', 'from', this.string(), SEMI); }
    else if (k === 1) { named(true); this.e(SEMI); }
    else if (k === 2) { named(false); this.e('from', this.string(), SEMI); }
    else if (k === 3) { this.e('var'); this.freshDecls(); this.e(SEMI); }
    else if (k === 4) { this.e(d.pick(['let', 'const'])); this.freshDecls(true); this.e(SEMI); }
    else if (k === 5) { d.int(2) ? this.functionDecl() : this.classLike(true); }
    else if (this.exports.has('default')) { this.e('var'); this.freshDecls(); this.e(SEMI); }
    else {
      this.exports.add('default'); this.e('default');
      const j = d.int(3);
      if (j === 0) { const i = this.out.length; this.assign(); const t = this.out[i]; if (t === 'function' || t === 'class' || t === 'async' && this.out.slice(i + 1, i + 3).includes('function')) { this.out.splice(i, 0, '('); this.e(')'); } this.e(SEMI); }
      else if (j === 1) this.functionDecl({ anon: true }); else this.classLike(true, true);
    }
  }
  freshDecls(init) { const n = this.d.range(1, 2); for (let i = 0; i < n; i++) { if (i) this.e(','); if (this.d.chance(25)) { this.pattern(false); this.e('='); this.assign(); } else { this.e(this.bindingName()); if (init || this.d.int(2)) { this.e('='); this.assign(); } } } }
  // ---- programs ----
  program(min = 1, max = 4) {
    const d = this.d;
    const nd = d.chance(12) ? d.range(1, 2) : 0;
    for (let i = 0; i < nd; i++) { if (d.chance(30)) { this.e('"use strict"', SEMI); this.c.strict = true; } else this.e(this.c.strict ? '"directive"' : this.string().replace(/(\\[^0-7])|\\[0-7]/gs, '$1'), SEMI); }
    const n = d.range(min, max);
    for (let i = 0; i < n; i++) this.goal === 'module' ? this.moduleItem() : this.stmt(true);
    if (this.needed.size) { this.e('var'); let f = true; for (const x of this.needed) { if (!f) this.e(','); this.e(x); f = false; } this.e(SEMI); }
    return this.out;
  }
}

const WS = [' ', ' ', '\t', '  ', '\u000b', '\u000c', '\u00a0', '\ufeff', '\u2003', '\u3000', '\u1680', '\u202f', '\u205f', '\u2000', '\u200a'];
const NL = ['\n', '\r', '\r\n', '\u2028', '\u2029'];
const BLOCKS = ['/**/', '/* x */', '/* // */', '/***/', '/*"*/', "/*'*/", '/*`${*/', '/*/ */', '/* } */', '/*é*/'];
const NLBLOCKS = ['/*\n*/', '/* a\r\n b */', '/*\u2028*/', '/**\n * x\n **/', '/*\r*/'];
const LINES = ['//', '// x', '//*', '// "', '//é', '// }', '///*/'];
// one gap; nl: 'no' (no line break allowed), 'yes' (must have one), 'any'
function gap(d, nl, need) {
  let s = '';
  const n = d.weigh([[6, 1], [2, 2], [1, 3]]);
  for (let i = 0; i < n; i++) s += d.weigh([[6, d.pick(WS)], [2, d.pick(BLOCKS)], ...(nl === 'no' ? [] : [[2, d.pick(NL)], [1, d.pick(NLBLOCKS)], [1, d.pick(LINES) + d.pick(NL)]])]);
  if (nl === 'yes' && !/[\n\r\u2028\u2029]/.test(s)) s += d.pick(NL);
  return s;
}
const isId = ch => /[\p{ID_Continue}$\u200c\u200d\\]/u.test(ch);
// whether two tokens may touch
function safe(a, b) {
  const x = Array.from(a), la = /\\u\{[0-9a-f]+\}$/i.test(a) && !/^[`"'/}]/.test(a) ? 'a' : x[x.length - 1], fb = Array.from(b)[0];
  if (/^[()[\]{},;~]$/.test(a) || (/^[()[\]{},;~]$/.test(b))) return true;
  if (/^[`}]/.test(a) && /(\$\{|`)$/.test(a)) return !(la === '`' && false);
  if (b[0] === '`' || (b[0] === '}' && b.length > 1)) return true;
  if (isId(la) && isId(fb)) return false;
  if (/^[.0-9]/.test(a) || (a[0] === '/' && a.length > 2)) return /^[+\-*%&|^=<>!?:]/.test(b); // number or regex before anything
  if (/^["']/.test(a) || /^["']/.test(b)) return true;
  const pa = !isId(la), pb = !isId(fb);
  if (pa && pb) return false;
  if (fb === '.' || la === '.') return !/^[0-9]/.test(b) && !/[0-9]$/.test(a);
  if (fb === '/' || la === '/') return false;
  return true;
}
// Renders tokens. mode: 'space' | 'tight' | 'wild'. gapFn overrides the gaps.
function render(tokens, mode = 'space', d = null) {
  let s = '', prev = null, nonl = false;
  for (const t of tokens) {
    if (t === NONL) { nonl = true; continue; }
    const x = t.semi ? ';' : t;
    if (prev !== null) {
      if (mode === 'space') s += ' ';
      else if (mode === 'tight') s += safe(prev, x) ? '' : ' ';
      else if (d.int(3) === 0 && safe(prev, x)) s += '';
      else { const gp = gap(d, nonl ? 'no' : 'any'); s += (gp[0] === '/' && s[s.length - 1] === '/' ? ' ' : '') + gp; }
    }
    s += x; prev = x; nonl = false;
  }
  return s;
}
module.exports = { Gen, render, gap, safe, SEMI, DOSEMI, NONL, PLAIN, CONTEXTUAL, UNI, SLOPPY, RESERVED, NUMS, REGEX, BINOPS, BIN, UNARY, ASSIGN, WS, NL, BLOCKS, NLBLOCKS, LINES };
