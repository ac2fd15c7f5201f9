import json
S='giron/src/scanner/scanner.rs'; P='giron/src/parser/parser.rs'; E='giron/src/estree/estree.rs'; L='giron/src/lib.rs'
ER='giron/src/errors/errors.rs'; CP='giron/src/codepoint/codepoint.rs'; PU='giron/src/token/punctuators.rs'; SP='giron/src/span/span.rs'; RD='giron/src/scanner/reader.rs'; SY='giron/src/parser/syntax.rs'; V='giron/src/token/value.rs'
props=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=state or [],observe_at=observe or ['giron::parse_script','giron::parse_module'],hook_needed=None)))
OBS=['giron::parse_script','giron::parse_module','serde JSON of EstreeNode']
p('C01','Parsing is total: any string yields Ok or Err, never a panic or a hang',
 "For every UTF-8 string whose bracket/statement nesting is of ordinary depth, both parse_script and parse_module return in finite time with either a tree or a GironError. They never panic, abort the process, loop forever or allocate without bound, and the returned tree can always be serialised to JSON.",
 ['inputs'],'all UTF-8 strings (random Unicode, token soup, truncated and mutated programs), nesting at most 60 levels, both entry points',
 'The tests feed a few hundred well-formed files; malformed, truncated or exotic input is never tried, and one unwrap/unreachable/index on an unexpected token is enough to break it.',
 [S,P,E,RD,PU],[('scanner error results instead of panics',S+': Scanner::lex, read_*'),('parser token classification',P+': match_*, matches_*, expect_*'),('pattern conversion',E+': to_binding_pattern, to_assignment_pattern')])
p('C02','Operator expressions are grouped by ECMAScript precedence and associativity',
 "For every expression built from unary, update, binary, logical, exponent, conditional, assignment, sequence, yield/await and parenthesised forms, the tree groups operands exactly as the ECMAScript grammar prescribes: every operator (including >>=, >>>, **, in, instanceof) is recognised whole, has the standard precedence and associativity, and is reported under its own ESTree node type. Parentheses override grouping and leave no node of their own.",
 ['programs'],'all operator expressions over all operators, arbitrary nesting and parenthesisation',
 'The precedence/associativity of pairs and triples of operators is a combinatorial space; tests only assert that sample files parse, never what tree results.',
 [P,PU,E,S],[('binary precedence climbing',P+': parse_binary_expr, get_precedence'),('unary/update/exponent parsing',P+': parse_unary_expr, parse_update_expr, parse_exponent_expr'),('assignment and conditional',P+': parse_assign_expr, parse_conditional_expr')],OBS)
p('C03','String and template literals carry their exact ECMAScript value and raw text',
 "For every string literal and template literal, the reported value (cooked text) is exactly the sequence of characters ECMAScript defines for it, for every escape form, line continuation and line terminator, and raw is the source text as ECMAScript defines it. A literal ECMAScript calls malformed (unterminated, bad hex/unicode escape, octal escape in an untagged template) is rejected.",
 ['inputs'],'all string and template literal spellings (lone surrogate values excluded: a Rust String cannot hold them)',
 'Escapes combine freely with quotes, continuation lines and line terminators; tests never look at a literal value.',
 [S,P,E],[('string scanner',S+': read_string_literal, read_escape_sequence'),('template scanner',S+': read_template_characters')],OBS)
p('C04','Numeric literals carry their exact value and raw; malformed ones are rejected',
 "For every decimal, fractional, exponent, hexadecimal, octal (0o and legacy) and binary numeric literal, the reported value is the IEEE double ECMAScript assigns to it and raw is the literal's source text. Malformed numbers (no digits after a prefix, a bad digit, an identifier or digit glued to the literal, a missing exponent) are rejected, and true, false and null are reported as the JSON boolean/null values.",
 ['inputs'],'all numeric literal spellings, any length, and their malformed neighbours',
 'The numeric literal space is infinite and rounding, overflow and prefix handling are corner cases; tests never look at a value.',
 [S,V,P],[('numeric scanner',S+': read_numeric_literal and helpers'),('value type',V)],OBS)
p('C05','Identifiers and keywords are told apart as ECMAScript defines',
 "Every valid IdentifierName (ASCII, non-ASCII ID_Start/ID_Continue, $, _, ZWNJ/ZWJ, \\u escapes) is accepted wherever an identifier or property name is allowed and reported with its decoded name; contextual words (of, get, set, async, static, from, as, let, yield, await, ...) work as plain identifiers where ECMAScript allows them. Any reserved word may be a property name, but no reserved word, escaped or not, is accepted as a binding or reference.",
 ['inputs'],'all identifier spellings in all syntactic positions',
 'Unicode has over 100k identifier characters and the contextual-keyword table multiplies with positions; tests use ordinary ASCII names.',
 [S,CP,P,SY],[('identifier scanner',S+': read_identifier and escapes'),('Unicode classes',CP),('reserved words',P+': is_reserved/is_keyword helpers')],OBS)
p('C06','Statements and declarations are reported with the standard ESTree structure',
 "Every program made of ECMAScript statements and declarations (blocks, var/let/const, if, for, for-in, for-of, while, do, switch, try, throw, labels, with, directives, ...) is accepted and its JSON is the ESTree tree of that program: same node types, same fields, same order, nothing lost, duplicated or regrouped.",
 ['programs'],'all syntactically valid ES2019 scripts built from statements, arbitrary nesting',
 'Statement forms nest and combine without bound; tests only assert that sample files parse without error, not that the tree is right.',
 [P,E],[('statement parser',P+': parse_statement, parse_for_stmt, parse_switch_stmt, parse_try_stmt, ...'),('ESTree serialisation',E)],OBS)
p('C07','Functions, arrows, generators and async functions are reported faithfully',
 "Every function declaration or expression, arrow function, generator, async function and async arrow, with any valid parameter list, is accepted and reported as the ESTree function node with the right id, params, body, async, generator and expression-body status. yield and await are operators exactly inside the generator/async bodies that own them and behave as ordinary identifiers (where ECMAScript permits) elsewhere.",
 ['programs'],'all function forms, nested in each other in any way',
 'The meaning of yield/await/async depends on the whole chain of enclosing functions, which is unbounded; tests only check that files parse.',
 [P,E],[('function parser',P+': parse_function_dclr, parse_function_expr, parse_arrow_function, parse_async_*'),('yield/await context flags',P+': Context')],OBS)
p('C08','Classes and object literals are reported faithfully',
 "Every class (declaration or expression, with or without name, heritage, static members) and every object literal, with any mix of methods, accessors, generator/async methods, computed, string, numeric and keyword keys, shorthand and spread, is accepted and reported with the right ESTree node, kind, static, computed, method and shorthand flags and keys, in source order. super and new.target appear exactly where written.",
 ['programs'],'all class bodies and object literals',
 'Member forms (kind x key form x modifiers) multiply and contextual words like get/set/static/async can each be a modifier or a name; tests do not look at the tree.',
 [P,E],[('class parser',P+': parse_class_dclr, parse_class_body, parse_method_definition'),('object literal parser',P+': parse_object_initializer, parse_object_property')],OBS)
p('C09','Destructuring patterns are reported faithfully in bindings and assignments',
 "Every valid array/object destructuring pattern, in variable declarations, parameters, arrow parameters, catch clauses, for-in/of heads and assignment expressions, is accepted and reported as ArrayPattern/ObjectPattern/AssignmentPattern/RestElement nodes matching the source. The same text used as an expression is reported as an array/object expression, and text that is neither is rejected.",
 ['programs'],'all binding and assignment patterns, arbitrarily nested, with defaults, rest, holes and computed keys',
 'Patterns are first parsed as expressions and then re-interpreted; every nesting of default/rest/hole/shorthand is a separate conversion path no test inspects.',
 [P,E],[('binding patterns',P+': parse_binding_pattern and helpers'),('cover grammar conversion',E+': to_binding_pattern, to_assignment_pattern, array_to_*, object_to_*')],OBS)
p('C10','Module imports and exports are reported faithfully, and only in modules',
 "Every import and export declaration form is accepted by parse_module and reported as the ESTree node with the right specifiers (default, namespace, named with as), local/imported/exported names, source and declaration. Import and export declarations are rejected by parse_script and anywhere other than the top level of a module.",
 ['programs'],'all import/export declarations and their combinations',
 'The tests contain a handful of module files and never inspect specifiers.',
 [P,E],[('import parser',P+': parse_import_declaration'),('export parser',P+': parse_export_declaration')],OBS)
p('C11','Slash and brace get the right meaning: regex, division, template continuation',
 "At every point of a program a / starts a regular expression exactly where the grammar expects an operand and a division operator elsewhere, and a } closes a template substitution exactly when it matches the ${ that opened it, whatever nesting of braces, functions, objects and templates surrounds it. A regular expression literal is reported with its exact pattern, flags and raw text.",
 ['programs'],'all programs mixing regexes, divisions, templates, blocks, object literals and functions',
 'The right reading depends on unbounded preceding context; tests only show that some real files parse.',
 [S,P],[('lexical goal',P+': advance(Goal), Goal::{Div,RegExp,...}'),('template brace tracking',S+': curly_stack'),('regex scanner',S+': read_regex*')],OBS)
p('C12','Automatic semicolon insertion follows the three ECMAScript rules exactly',
 "Deleting a semicolon that ECMAScript would reinsert leaves the tree unchanged, a line break where no semicolon is needed never splits a statement, and after return, break, continue, throw, yield, async, before postfix ++/-- and before => a line break acts as the restricted productions demand. A missing semicolon that ECMAScript would not insert is rejected.",
 ['programs'],'all programs, every subset of optional semicolons and every line-break placement',
 'Each program has exponentially many semicolon/line-break variants; tests have one layout per file.',
 [P,S],[('semicolon consumption',P+': consume_semicolon'),('line terminator lookup',P+': has_line_terminator')],OBS)
p('C13','Whitespace, comments and line-terminator style never change the tree',
 "Replacing the gap between two tokens by any other mix of whitespace, line terminators (LF, CR, CRLF, LS, PS) and comments that preserves whether a line break is present (and keeps the tokens apart) leaves the tree unchanged. Whitespace and comments at the start and end of the source never matter, an unterminated comment is rejected.",
 ['programs'],'all programs and all re-layouts of them, incl. every Unicode space and every line terminator',
 'The space of layouts of even one program is infinite; tests have one layout per file.',
 [S,RD,CP],[('comment and whitespace skipping',S+': skip_comments'),('line terminators',CP)],OBS)
p('C14','Text that is not a grammatical program is rejected',
 "If a source text does not match the ECMAScript (ES2019) grammar, because a token is missing, superfluous, misplaced or malformed or a bracket is unbalanced, parse_script and parse_module return an error rather than a tree. Early errors beyond the grammar that the project documents as not yet implemented are outside this property.",
 ['inputs'],'all token sequences close to valid programs: deletions, insertions, swaps, duplications, truncations and replacements of tokens',
 'The set of invalid programs is infinite; the tests contain one hand-written family of rejections.',
 [P,S,E],[('token expectations',P+': expect_punc, expect_keyword, consume_semicolon'),('scanner errors',S)],OBS)
p('C15','Context rules are enforced: return, break, continue, with, strict mode',
 "return is accepted exactly inside functions, break and continue exactly inside a loop/switch or label that they can target within the same function, and yield/await expressions exactly inside generators/async functions. In strict code (a use strict directive, a class body or a module) with statements and strict reserved words as identifiers are rejected, and strictness neither leaks out of nor is lost inside the function that declares it.",
 ['programs'],'all nestings of functions, loops, switches, classes, arrows and directives around such a statement or name',
 'Legality depends on the whole chain of enclosing constructs; tests sample a dozen flat cases.',
 [P],[('context flags saved/restored around constructs',P+': Context fields in_function, in_iteration, in_switch, strict, has_yield, has_await')],OBS)
p('C16','Only valid targets can be assigned to',
 "An assignment, update (++/--), for-in/of head or destructuring target is accepted when it is an identifier, member expression or (for =, for-in/of) a valid pattern, parenthesised or not as ECMAScript allows. Any other expression in a target position (calls, literals, operators, this, new.target, optional groupings of patterns, ...) is rejected.",
 ['programs'],'all expressions in all target positions',
 'Any expression can appear as a would-be target; the check depends on a per-node classification no test enumerates.',
 [P,E],[('target classification',E+': assign_target_type'),('target checks',P+': parse_assign_expr, parse_update_expr, parse_for_*')],OBS)
p('C17','Errors are well-formed and point at the offending place',
 "Every error carries a 1-based line that exists in the source and a column within that line (or just past its end), and a non-empty message which, when it says a token is unexpected, names the token that stands at the reported place. What follows the offending token's line has no influence: appending to or replacing the text after it leaves the error as it is (except where the text at the reported place is only wrong because of what follows: an object initializer such as {a=1} that turns out not to be a pattern, or an export list that turns out to have no source), and inserting n lines before the text moves the reported line by exactly n and nothing else.",
 ['inputs'],'all rejected sources and their prefix/suffix extensions',
 'Error positions are never asserted by any test, and the relation quantifies over all continuations of a bad prefix.',
 [ER,P,S,SP],[('error construction',P+': error helpers'),('position tracking',S+': line/column bookkeeping')],['giron::GironError fields and Display'])
p('C18','Source spans delimit exactly the text of the node',
 "Every node of the returned tree that carries a span has start and end offsets that delimit exactly the source text of that construct, so a child lies within its parent and siblings do not overlap. The start and end line and column agree with those offsets.",
 ['programs'],'all accepted programs, all nodes that carry a span',
 'No test looks at a span; correctness quantifies over all node kinds in all nestings.',
 [P,SP,S,E],[('span markers',P+': start_span/end_span, marker stack')],['span fields of EstreeNode'])
p('C19','The JSON output always conforms to the ESTree format',
 "For every accepted source, the JSON is a single object whose every node has an ESTree type, exactly the fields ESTree prescribes for that type with values of the prescribed kinds (node, list, null, boolean, enumerated string), and no extraneous data. Program.sourceType is script for parse_script and module for parse_module.",
 ['inputs'],'all accepted sources, including odd but accepted ones found by mutation',
 'Tests never serialise the tree; conformance quantifies over every reachable node shape.',
 [E,V,P],[('serde attributes',E)],OBS)
p('C20','Parsing is a pure function of the source text',
 "Parsing the same text gives the same tree or the same error every time, whatever was parsed before in the process (including failed parses), in whatever thread and however many threads parse concurrently.",
 ['inputs','histories','schedules'],'all sources, all sequences of preceding parses, several concurrent threads',
 'Tests run each file once; hidden state would only show across histories.',
 [L,P,S],[('fresh parser per call',L)],OBS)
p('C21','Parsing is compositional: embedding code does not change how it is read',
 "A statement list concatenated with another, or placed in a block, function body, class method, loop body or switch case, is reported exactly as it is on its own, and an expression placed in an argument, array element, property value, template substitution, initialiser, condition or parentheses is reported exactly as it is on its own. This holds for real-world code as well as generated code.",
 ['programs'],'all statement lists/expressions and all one- or multi-level contexts that ECMAScript treats as neutral for them',
 'It relates pairs of programs over all contexts; tests parse each file alone.',
 [P,S],[('context save/restore',P+': Context handling around sub-parses'),('token lookahead save/restore',S+': save_state/restore_state')],OBS)
p('C22','The cost of parsing grows linearly with the size of the source',
 "Repeating a program fragment n times, side by side or nested within ordinary depth, makes the parser allocate memory at most proportionally to n: no fragment makes time or memory grow quadratically or worse.",
 ['programs'],'all fragments, repetition counts and bounded nesting depths',
 'It relates families of inputs of growing size; tests measure nothing.',
 [S,P,RD],[('single-pass scanner',S),('cover grammar without backtracking',P)],['allocation counters around giron::parse_script'])
p('C23','Script and module goals differ only where ECMAScript says they do',
 "A source accepted as a module without import/export/await-sensitive constructs gives the same body as the same source parsed as a script whose first statement is a use strict directive. A module is always strict, await is reserved in it, and sloppy-only syntax is rejected by parse_module but accepted by parse_script.",
 ['programs'],'all programs without import/export, and each sloppy-only construct in any context',
 'It relates the two entry points over all programs; the tests never parse a source both ways.',
 [L,P],[('goal-specific flags',P+': parse_script, parse_module')],OBS)
p('C24','The wasm package returns the same tree as the Rust crate',
 "For every source, the object the wasm package hands to JavaScript equals the JSON the Rust crate produces, and a parse error becomes a thrown value carrying the same message.",
 ['inputs'],'all sources',
 'There are no tests of the wasm package.',
 ['giron-wasm/src/lib.rs'],[('JsValue bridge','giron-wasm/src/lib.rs')],['giron-wasm exports'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in props))
