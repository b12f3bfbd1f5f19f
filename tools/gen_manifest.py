#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness modules present."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json')))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'harness', i.lower() + '.py')) and i not in NA:
        checks.append(dict(
            property=i, quick_cmd='python3-vt check.py %s quick' % i, thorough_cmd='python3-vt check.py %s thorough' % i,
            technique='symbolic execution of the real Python code, obligations decided by SMT (z3/cvc5), counterexamples replayed',
            level='model_checking',
            level_note='Every path of the real code within the stated bounds is executed symbolically and each obligation is decided by '
                       'an SMT solver for all input values of the path. Floats are modelled as reals; NumPy, numba and other third-party '
                       'libraries are represented by stand-ins (symx/); a violation is reported only after it reproduces on the real code.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='python3-vt -c "import z3, cvc5, numpy"', checks=checks, not_applicable=na,
         notes='See DESIGN.md. Known findings: known_findings.txt.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
