#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a js/props/<id>.js."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'fuzzing with random, mutated and truncated texts; crash/hang/allocation oracle',
 'C02': 'exhaustive operator triples and random expressions against a reference model of precedence; differential against a reference parser',
 'C03': 'generated literals whose value is known by construction; differential against a reference parser',
 'C04': 'generated numeric literals against exact big-integer and correctly rounded reference values; differential rejection',
 'C05': 'generated identifiers against Unicode tables and the reserved-word model; differential',
 'C06': 'grammar-based generation of statements, differential against a reference parser with arbiter',
 'C07': 'grammar-based generation of functions, calls and members, differential against a reference parser with arbiter',
 'C08': 'generation of classes and object literals, differential against a reference parser with arbiter',
 'C09': 'generation of patterns and arrow functions, differential against a reference parser with arbiter',
 'C10': 'generation of import/export declarations, differential against a reference parser with arbiter',
 'C11': 'generated contexts of slashes, braces and templates with a known reading; differential',
 'C12': 'metamorphic removal of semicolons and insertion of line breaks; differential on fragment pairs',
 'C13': 'metamorphic re-layout of generated and real programs',
 'C14': 'mutation of valid programs, rejection differential with arbiter',
 'C15': 'generated nestings of contexts against a model of what is legal where; differential',
 'C16': 'all expression kinds in all target positions against a model of valid targets; differential',
 'C17': 'invariants and metamorphic relations over generated rejected sources',
 'C18': 'spans of generated programs against reference spans, and nesting/position invariants',
 'C19': 'schema invariant over the JSON of generated and mutated accepted sources',
 'C20': 'stateful histories of parses and concurrent threads, differential against a fresh process',
 'C21': 'metamorphic embedding of generated and real code into generated contexts',
 'C22': 'metamorphic scaling relation on counted allocations',
 'C23': 'metamorphic relation between the two entry points; generated sloppy-only constructs in generated contexts',
}
NOTE = 'Search over generated inputs with an explicit oracle: shows presence of violations, not absence; the size and shape of what was explored is in the evidence file.'
NA = json.load(open(os.path.join(ROOT, 'tools', 'not_applicable.json')))
checks = [{'property': k, 'quick_cmd': f'./run.sh {k} quick', 'thorough_cmd': f'./run.sh {k} thorough', 'technique': v, 'level': 'exploration', 'level_note': NOTE}
          for k, v in T.items() if os.path.exists(os.path.join(ROOT, 'js', 'props', k + '.js'))]
m = {'version': 1, 'setup_cmd': 'cd harness && CARGO_NET_OFFLINE=true cargo build --release --offline', 'checks': checks, 'not_applicable': NA}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks')
