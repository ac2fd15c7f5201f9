'use strict';
module.exports = require('./_tree.js')({
  scale: ['statements', 'cases', 'variables', 'bodies', 'blocks', 'directives', 'labels'],
  w: { exprStmt: 6, var: 8, lexical: 8, for: 14, if: 8, switch: 7, try: 7, leaf: 80, object: 3, functionExpr: 3, classExpr: 1, function: 2, class: 1, arrow: 2 },
  more: m => require('../ingrid.js').phases(m > 1 ? 'thorough' : 'quick', 1),
  interesting: /\b(if|for|while|do|switch|try|throw|with|var|let|const|return|break|continue|debugger)\b/,
  rule: 'Programs of nested statements and declarations from a grammar-based generator (plus mutated ones), compared node by node with the reference tree. Non-trivial: accepted by the reference and containing a statement other than an expression statement.',
});
