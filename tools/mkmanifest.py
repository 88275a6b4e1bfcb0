#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from spec.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V)
import spec
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i not in spec.P:
        continue
    p = spec.P[i]
    checks.append(dict(
        property=i,
        quick_cmd='python3 check.py ' + i,
        thorough_cmd='python3 check.py %s --thorough' % i,
        evidence_file='evidence/%s.json' % i,
        technique='symbolic execution of the LLVM IR of the real code, assertions decided by an SMT solver (z3), counterexamples replayed natively',
        level='model_checking',
        level_note='Every input within the bounds is covered: %s. Outside: %s. Trusted: rustc\'s LLVM IR output, the executor in sx/ (cross-checked against native runs of sample paths), z3.' % (p['bounds'], p['outside'])))
na = [dict(property=i, reason=spec.NA.get(i, 'no check yet')) for i in ids if i not in spec.P]
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo are needed. check.py rebuilds the executor, the IR of /repo with the harness and the native replay program on every run.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
