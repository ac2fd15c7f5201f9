'use strict';
// Second opinion, asked only where giron and acorn disagree. acorn's tokenizer guesses whether a
// slash starts a regular expression from local context and is sometimes wrong (for example
// `-async function(){}/a`); Babel's is driven by its parser. A disagreement counts only if Babel
// does not side with giron.
// Early errors beyond the grammar, which giron documents as not implemented.
const SOFT = new Set(['YieldInParameter', 'AwaitExpressionFormalParameter', 'SuperNotAllowed', 'UnexpectedSuper', 'UnexpectedNewTarget', 'DuplicateProto', 'VarRedeclaration', 'LabelRedeclaration', 'DuplicateRegExpFlags', 'MalformedRegExpFlags', 'ModuleExportUndefined', 'DuplicateExport', 'StrictDelete', 'IllegalLanguageModeDirective', 'StrictOctalLiteral', 'StrictNumericEscape', 'DuplicateConstructor', 'ParamDupe']);
let B = null;
const NEW = new Set(['ChainExpression', 'OptionalMemberExpression', 'OptionalCallExpression', 'PropertyDefinition', 'PrivateName', 'PrivateIdentifier', 'StaticBlock', 'ImportExpression', 'ImportAttribute', 'BigIntLiteral', 'InterpreterDirective', 'V8IntrinsicIdentifier']);
function babel(src, goal) {
  if (!B) B = require('/opt/veriftools/node/node_modules/@babel/parser');
  try {
    const f = B.parse(src, { sourceType: goal, plugins: ['estree'], errorRecovery: true });
    return { ast: f.program, errors: f.errors || [], hard: (f.errors || []).filter(e => !SOFT.has(e.reasonCode) && !/in const declaration/.test(e.message)) };
  } catch (e) { return { fatal: String(e.message) }; }
}
function modern(n, async = false) { // does the tree use syntax newer than ES2019?
  if (Array.isArray(n)) return n.some(x => modern(x, async));
  if (!n || typeof n !== 'object') return false;
  if (NEW.has(n.type)) return true;
  if (n.type === 'LogicalExpression' && n.operator === '??') return true;
  if (n.type === 'AssignmentExpression' && /^(\|\||&&|\?\?)=$/.test(n.operator)) return true;
  if (n.type === 'MetaProperty' && n.meta.name === 'import') return true;
  if (n.type === 'Literal' && (n.bigint || (typeof n.value === 'number' && /_/.test(n.raw)))) return true;
  if (n.type === 'ExportAllDeclaration' && n.exported) return true;
  if (/^(Im|Ex)portSpecifier$/.test(n.type) && [n.imported, n.exported, n.local].some(x => x && x.type === 'Literal')) return true;
  if (n.interpreter) return true;
  if (!async && (n.type === 'AwaitExpression' || (n.type === 'ForOfStatement' && n.await))) return true; // await outside async functions
  if (/Function/.test(n.type)) async = !!n.async;
  for (const k of Object.keys(n)) if (k !== 'loc' && n[k] && typeof n[k] === 'object' && modern(n[k], async)) return true;
  return false;
}
module.exports = { babel, modern };
