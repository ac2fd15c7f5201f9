'use strict';
// ESTree (ES2019) node table, schema validation of giron's JSON, and canonical forms
// for comparing a giron tree with a reference tree.

// kinds: 'N' node, 'N?' node or null, 'L' list of nodes, 'L?' list of nodes or null (holes),
// 'b' boolean, 's' string, 'any' checked elsewhere, [..] enumerated values
const BIN = ['==', '!=', '===', '!==', '<', '<=', '>', '>=', '<<', '>>', '>>>', '+', '-', '*', '/', '%', '|', '^', '&', 'in', 'instanceof', '**'];
const ASSIGN = ['=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '>>>=', '|=', '^=', '&=', '**='];
const EXPR = ['ThisExpression', 'Identifier', 'Literal', 'ArrayExpression', 'ObjectExpression', 'FunctionExpression', 'UnaryExpression', 'UpdateExpression', 'BinaryExpression', 'AssignmentExpression', 'LogicalExpression', 'MemberExpression', 'ConditionalExpression', 'CallExpression', 'NewExpression', 'SequenceExpression', 'ArrowFunctionExpression', 'YieldExpression', 'AwaitExpression', 'TemplateLiteral', 'TaggedTemplateExpression', 'ClassExpression', 'MetaProperty'];
const PAT = ['Identifier', 'ObjectPattern', 'ArrayPattern', 'MemberExpression'];
const DECL = ['FunctionDeclaration', 'VariableDeclaration', 'ClassDeclaration'];
const STMT = ['ExpressionStatement', 'BlockStatement', 'EmptyStatement', 'DebuggerStatement', 'WithStatement', 'ReturnStatement', 'LabeledStatement', 'BreakStatement', 'ContinueStatement', 'IfStatement', 'SwitchStatement', 'ThrowStatement', 'TryStatement', 'WhileStatement', 'DoWhileStatement', 'ForStatement', 'ForInStatement', 'ForOfStatement', ...DECL];
const MODDECL = ['ImportDeclaration', 'ExportNamedDeclaration', 'ExportDefaultDeclaration', 'ExportAllDeclaration'];
const n = (...t) => ({ k: 'node', t }), nn = (...t) => ({ k: 'node', t, nul: true }), l = (...t) => ({ k: 'list', t }), lh = (...t) => ({ k: 'list', t, hole: true });
const b = { k: 'bool' }, s = { k: 'str' }, en = (...v) => ({ k: 'enum', v }), any = { k: 'any' };
const FN = { id: nn('Identifier'), params: l('Identifier', 'ObjectPattern', 'ArrayPattern', 'AssignmentPattern', 'RestElement'), generator: b, async: b };
const T = {
  Program: { body: l(...STMT, ...MODDECL), sourceType: en('script', 'module') },
  ExpressionStatement: { expression: n(...EXPR) }, // directive: optional, handled below
  BlockStatement: { body: l(...STMT) }, EmptyStatement: {}, DebuggerStatement: {},
  WithStatement: { object: n(...EXPR), body: n(...STMT) },
  ReturnStatement: { argument: nn(...EXPR) },
  LabeledStatement: { label: n('Identifier'), body: n(...STMT) },
  BreakStatement: { label: nn('Identifier') }, ContinueStatement: { label: nn('Identifier') },
  IfStatement: { test: n(...EXPR), consequent: n(...STMT), alternate: nn(...STMT) },
  SwitchStatement: { discriminant: n(...EXPR), cases: l('SwitchCase') },
  SwitchCase: { test: nn(...EXPR), consequent: l(...STMT) },
  ThrowStatement: { argument: n(...EXPR) },
  TryStatement: { block: n('BlockStatement'), handler: nn('CatchClause'), finalizer: nn('BlockStatement') },
  CatchClause: { param: nn('Identifier', 'ObjectPattern', 'ArrayPattern'), body: n('BlockStatement') },
  WhileStatement: { test: n(...EXPR), body: n(...STMT) }, DoWhileStatement: { body: n(...STMT), test: n(...EXPR) },
  ForStatement: { init: nn('VariableDeclaration', ...EXPR), test: nn(...EXPR), update: nn(...EXPR), body: n(...STMT) },
  ForInStatement: { left: n('VariableDeclaration', ...PAT), right: n(...EXPR), body: n(...STMT) },
  ForOfStatement: { left: n('VariableDeclaration', ...PAT), right: n(...EXPR), body: n(...STMT), await: b },
  FunctionDeclaration: Object.assign({}, FN, { body: n('BlockStatement') }),
  VariableDeclaration: { declarations: l('VariableDeclarator'), kind: en('var', 'let', 'const') },
  VariableDeclarator: { id: n('Identifier', 'ObjectPattern', 'ArrayPattern'), init: nn(...EXPR) },
  ThisExpression: {}, Super: {}, Identifier: { name: s },
  Literal: { value: any, raw: s },
  ArrayExpression: { elements: lh(...EXPR, 'SpreadElement') },
  ObjectExpression: { properties: l('Property', 'SpreadElement') },
  Property: { key: n(...EXPR), computed: b, value: n(...EXPR, 'ObjectPattern', 'ArrayPattern', 'AssignmentPattern'), kind: en('init', 'get', 'set'), method: b, shorthand: b },
  FunctionExpression: Object.assign({}, FN, { body: n('BlockStatement') }),
  ArrowFunctionExpression: { params: FN.params, body: n('BlockStatement', ...EXPR), async: b, expression: b },
  UnaryExpression: { operator: en('-', '+', '!', '~', 'typeof', 'void', 'delete'), prefix: en(true), argument: n(...EXPR) },
  UpdateExpression: { operator: en('++', '--'), argument: n('Identifier', 'MemberExpression'), prefix: b },
  BinaryExpression: { operator: en(...BIN), left: n(...EXPR), right: n(...EXPR) },
  LogicalExpression: { operator: en('||', '&&'), left: n(...EXPR), right: n(...EXPR) },
  AssignmentExpression: { operator: en(...ASSIGN), left: n(...PAT), right: n(...EXPR) },
  MemberExpression: { object: n(...EXPR, 'Super'), property: n(...EXPR), computed: b },
  ConditionalExpression: { test: n(...EXPR), consequent: n(...EXPR), alternate: n(...EXPR) },
  CallExpression: { callee: n(...EXPR, 'Super'), arguments: l(...EXPR, 'SpreadElement') },
  NewExpression: { callee: n(...EXPR), arguments: l(...EXPR, 'SpreadElement') },
  SequenceExpression: { expressions: l(...EXPR) },
  YieldExpression: { argument: nn(...EXPR), delegate: b }, AwaitExpression: { argument: n(...EXPR) },
  TemplateLiteral: { quasis: l('TemplateElement'), expressions: l(...EXPR) },
  TaggedTemplateExpression: { tag: n(...EXPR), quasi: n('TemplateLiteral') },
  TemplateElement: { value: any, tail: b },
  ObjectPattern: { properties: l('Property', 'RestElement') },
  ArrayPattern: { elements: lh(...PAT, 'RestElement', 'AssignmentPattern') },
  RestElement: { argument: n(...PAT) }, SpreadElement: { argument: n(...EXPR) },
  AssignmentPattern: { left: n(...PAT), right: n(...EXPR) },
  ClassDeclaration: { id: nn('Identifier'), superClass: nn(...EXPR), body: n('ClassBody') },
  ClassExpression: { id: nn('Identifier'), superClass: nn(...EXPR), body: n('ClassBody') },
  ClassBody: { body: l('MethodDefinition') },
  MethodDefinition: { key: n(...EXPR), value: n('FunctionExpression'), kind: en('constructor', 'method', 'get', 'set'), computed: b, static: b },
  MetaProperty: { meta: n('Identifier'), property: n('Identifier') },
  ImportDeclaration: { specifiers: l('ImportSpecifier', 'ImportDefaultSpecifier', 'ImportNamespaceSpecifier'), source: n('Literal') },
  ImportSpecifier: { local: n('Identifier'), imported: n('Identifier') },
  ImportDefaultSpecifier: { local: n('Identifier') }, ImportNamespaceSpecifier: { local: n('Identifier') },
  ExportNamedDeclaration: { declaration: nn(...DECL), specifiers: l('ExportSpecifier'), source: nn('Literal') },
  ExportSpecifier: { local: n('Identifier'), exported: n('Identifier') },
  ExportDefaultDeclaration: { declaration: n('FunctionDeclaration', 'ClassDeclaration', ...EXPR) },
  ExportAllDeclaration: { source: n('Literal') },
};
// Fields that widely used ESTree producers add; tolerated on these types, never required.
const EXTRA = {
  FunctionDeclaration: { expression: v => v === false }, FunctionExpression: { expression: v => v === false },
  ArrowFunctionExpression: { id: v => v === null, generator: v => v === false },
  ForInStatement: { each: v => v === false },
};
const FIELDS = {}; for (const t in T) FIELDS[t] = Object.keys(T[t]);

function isNode(v) { return v !== null && typeof v === 'object' && !Array.isArray(v) && typeof v.type === 'string'; }

// Returns null, or a message naming the first place where `node` is not ESTree.
function validate(node, path = '$') {
  if (!isNode(node)) return `${path}: not a node: ${JSON.stringify(node)}`.slice(0, 200);
  const spec = T[node.type];
  if (!spec) return `${path}: ${node.type} is not an ESTree type`;
  for (const k of Object.keys(node)) {
    if (k === 'type' || k in spec) continue;
    if (node.type === 'ExpressionStatement' && k === 'directive') {
      if (typeof node.directive !== 'string' || !isNode(node.expression) || node.expression.type !== 'Literal' || typeof node.expression.value !== 'string') return `${path}: bad directive`;
      continue;
    }
    if (node.type === 'Literal' && k === 'regex') continue;
    const ex = EXTRA[node.type] && EXTRA[node.type][k];
    if (!ex) return `${path}: ${node.type} has the extra field ${k}`;
    if (!ex(node[k])) return `${path}: ${node.type}.${k} is ${JSON.stringify(node[k])}`.slice(0, 200);
  }
  for (const f in spec) {
    const p = `${path}.${f}`, v = node[f], sp = spec[f];
    if (!(f in node)) return `${path}: ${node.type} lacks the field ${f}`;
    switch (sp.k) {
      case 'bool': if (typeof v !== 'boolean') return `${p}: ${node.type}.${f} is not a boolean`; break;
      case 'str': if (typeof v !== 'string') return `${p}: ${node.type}.${f} is not a string`; break;
      case 'enum': if (!sp.v.includes(v)) return `${p}: ${node.type}.${f} is ${JSON.stringify(v)}`.slice(0, 200); break;
      case 'node': {
        if (v === null) { if (!sp.nul) return `${p}: ${node.type}.${f} is null`; break; }
        if (!isNode(v)) return `${p}: ${node.type}.${f} is not a node`;
        if (!sp.t.includes(v.type)) return `${p}: ${node.type}.${f} is a ${v.type}`;
        const e = validate(v, p); if (e) return e; break;
      }
      case 'list': {
        if (!Array.isArray(v)) return `${p}: ${node.type}.${f} is not a list`;
        for (let i = 0; i < v.length; i++) {
          if (v[i] === null) { if (!sp.hole) return `${p}[${i}]: ${node.type}.${f} has a null`; continue; }
          if (!isNode(v[i])) return `${p}[${i}]: ${node.type}.${f} has a non-node`;
          if (!sp.t.includes(v[i].type)) return `${p}[${i}]: ${node.type}.${f} has a ${v[i].type}`;
          const e = validate(v[i], `${p}[${i}]`); if (e) return e;
        }
        break;
      }
    }
  }
  // relations between fields
  switch (node.type) {
    case 'Literal': {
      const v = node.value;
      if (node.regex !== undefined) {
        const r = node.regex;
        if (r === null || typeof r !== 'object' || Object.keys(r).sort().join() !== 'flags,pattern' || typeof r.pattern !== 'string' || typeof r.flags !== 'string') return `${path}: bad regex field`;
        if (v !== null && !(typeof v === 'object' && Object.keys(v).length === 0)) return `${path}: regex literal with the value ${JSON.stringify(v)}`.slice(0, 200);
        if (node.raw !== `/${r.pattern}/${r.flags}`) return `${path}: regex raw ${node.raw} is not /${r.pattern}/${r.flags}`.slice(0, 200);
      } else if (v !== null && !['string', 'number', 'boolean'].includes(typeof v)) return `${path}: bad literal value`;
      else if (v === null && node.raw !== 'null' && !/^[0-9.]/.test(node.raw)) return `${path}: null value for ${node.raw}`.slice(0, 200);
      else if (typeof v === 'boolean' && node.raw !== String(v)) return `${path}: raw ${node.raw} for ${v}`;
      else if (typeof v === 'string' && !/^(["'])[^]*\1$/.test(node.raw)) return `${path}: raw ${node.raw} for a string`.slice(0, 200);
      break;
    }
    case 'TemplateElement': {
      const v = node.value;
      if (v === null || typeof v !== 'object' || Object.keys(v).sort().join() !== 'cooked,raw' || typeof v.raw !== 'string' || (v.cooked !== null && typeof v.cooked !== 'string')) return `${path}: bad TemplateElement.value`;
      break;
    }
    case 'TemplateLiteral':
      if (node.quasis.length !== node.expressions.length + 1) return `${path}: ${node.quasis.length} quasis for ${node.expressions.length} expressions`;
      for (let i = 0; i < node.quasis.length; i++) if (node.quasis[i].tail !== (i === node.quasis.length - 1)) return `${path}: tail flag`;
      break;
    case 'ArrowFunctionExpression':
      if (node.expression !== (node.body.type !== 'BlockStatement')) return `${path}: arrow expression flag`;
      break;
    case 'MemberExpression': if (!node.computed && node.property.type !== 'Identifier') return `${path}: static member property is a ${node.property.type}`; break;
    case 'SequenceExpression': if (node.expressions.length < 2) return `${path}: SequenceExpression of ${node.expressions.length}`; break;
    case 'TryStatement': if (!node.handler && !node.finalizer) return `${path}: try without handler or finalizer`; break;
    case 'VariableDeclaration': if (!node.declarations.length) return `${path}: empty VariableDeclaration`; break;
    case 'Property': case 'MethodDefinition':
      if (!node.computed && node.key.type !== 'Identifier' && !(node.key.type === 'Literal' && ['string', 'number'].includes(node.key.value === null ? 'number' : typeof node.key.value))) return `${path}: key is a ${node.key.type}`;
      if (node.type === 'Property' && (node.kind !== 'init' || node.method) && node.value.type !== 'FunctionExpression') return `${path}: method/accessor value is a ${node.value.type}`;
      if (node.type === 'Property' && node.kind !== 'init' && node.method) return `${path}: accessor with method`;
      if (node.shorthand && (node.computed || node.method || node.key.type !== 'Identifier')) return `${path}: bad shorthand`;
      break;
    case 'FunctionDeclaration': break;
    case 'ExportNamedDeclaration':
      if (node.declaration && (node.specifiers.length || node.source)) return `${path}: declaration with specifiers`;
      break;
    case 'YieldExpression': if (node.delegate && !node.argument) return `${path}: yield* without argument`; break;
  }
  return null;
}

const lone = v => v.replace(/[\ud800-\udbff](?![\udc00-\udfff])|(?<![\ud800-\udbff])[\udc00-\udfff]/g, '\ufffd');

// Canonical tree: exactly the ESTree fields in table order. Unknown types keep all fields.
function canon(v) {
  if (Array.isArray(v)) return v.map(canon);
  if (v === null || typeof v !== 'object') {
    if (typeof v === 'string') return lone(v);
    if (v === undefined) return null;
    return v;
  }
  if (v.type === 'Literal' || v.type === undefined) {
    if (v.regex) return { type: 'Literal', raw: lone(String(v.raw)), regex: { pattern: lone(String(v.regex.pattern)), flags: v.regex.flags } };
  }
  if (v.type === 'Literal') {
    let x = v.value;
    if (typeof x === 'number' && !Number.isFinite(x)) x = null;
    if (typeof x === 'string') x = lone(x);
    return { type: 'Literal', value: x === undefined ? null : x, raw: lone(String(v.raw)) };
  }
  if (v.type === 'TemplateElement' && v.value) {
    return { type: 'TemplateElement', value: { raw: lone(String(v.value.raw)), cooked: v.value.cooked === undefined || v.value.cooked === null ? null : lone(v.value.cooked) }, tail: v.tail };
  }
  const o = { type: v.type }, fs = FIELDS[v.type];
  if (fs) {
    for (const f of fs) if (f in v) o[f] = canon(v[f]);
    if (v.type === 'ExpressionStatement' && typeof v.directive === 'string') o.directive = lone(v.directive);
  } else for (const f of Object.keys(v)) if (f !== 'start' && f !== 'end' && f !== 'loc') o[f] = canon(v[f]);
  return o;
}

// First difference between canonical trees: null or {path, a, b}
function diff(a, b, path = '$') {
  if (a === b) return null;
  if (typeof a !== typeof b || a === null || b === null || typeof a !== 'object') {
    if (typeof a === 'number' && typeof b === 'number' && Object.is(a, b)) return null;
    return { path, a, b };
  }
  if (Array.isArray(a) !== Array.isArray(b)) return { path, a, b };
  if (Array.isArray(a)) {
    for (let i = 0; i < Math.min(a.length, b.length); i++) { const d = diff(a[i], b[i], `${path}[${i}]`); if (d) return d; }
    return a.length === b.length ? null : { path: path + '.length', a: a.length, b: b.length };
  }
  if (a.type !== b.type) return { path: path + '.type', a: a.type, b: b.type };
  for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) {
    if (!(k in a) || !(k in b)) return { path: `${path}.${k}`, a: k in a ? a[k] : '(absent)', b: k in b ? b[k] : '(absent)' };
    const d = diff(a[k], b[k], `${path}.${k}`); if (d) return d;
  }
  return null;
}
const short = v => { const s = JSON.stringify(v); return s === undefined ? String(v) : s.length > 160 ? s.slice(0, 160) + '…' : s; };
const showDiff = (d, x = 'reference', y = 'giron') => `${d.path}: ${x} ${short(d.a)} ${y} ${short(d.b)}`;

function walk(node, f, parent = null, key = null) {
  if (Array.isArray(node)) { for (const x of node) walk(x, f, parent, key); return; }
  if (!isNode(node)) return;
  f(node, parent, key);
  for (const k of Object.keys(node)) if (k !== 'loc' && node[k] && typeof node[k] === 'object') walk(node[k], f, node, k);
}
module.exports = { T, FIELDS, EXPR, STMT, validate, canon, diff, showDiff, walk, isNode, lone };
