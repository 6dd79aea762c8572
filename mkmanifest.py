#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered proof tasks."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import specs
NA = {
    'C23': 'The bit-exactness of floats in JSON text rests on std::to_chars / std::from_chars of the C++ library, which has no contract within reach of a deductive verifier here; the code under /repo only passes the characters on.',
    'C24': 'The property does not hold: decoding recurses once per nesting level and has no depth limit. A limit would be a new feature with an observable default, not a small repair; there is nothing to prove.',
}
NOTE = {}
specs.load()
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in NA:
        na.append({'property': p, 'reason': NA[p]})
        continue
    n = len(specs.TASKS.get(p, []))
    if n:
        tech = 'contract-based deductive verification of the LLVM IR of the real templates (own VC generator, z3/cvc5), with a bounded sanitizer run for what is outside its reach'
        note = '%d proof tasks, unbounded in input and iterations; every obligation is regenerated from the current tree. Functions whose obligations stay undecided (listed in the evidence) are only covered by the bounded run of the generated code. Trusted: clang front end, VC generator, solvers, runtime contracts.' % n
        lvl = 'proof'
    else:
        tech = 'bounded check of the generated code against an independent reference codec (stand-in, nothing proved)'
        note = 'Bounded: seeded inputs of one run under ASan/UBSan; the functions are outside the reach of the verifier, see DESIGN.md.'
        lvl = 'exploration'
    checks.append({'property': p, 'quick_cmd': 'python3-vt check.py %s' % p, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': tech, 'level': lvl, 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3-vt setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed in /repo: the verifier instantiates the real templates with abstract types. See DESIGN.md.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
