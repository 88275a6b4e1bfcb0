#!/usr/bin/env python3
"""Writes known_findings.jsonl: the findings that stay (status known, matched by the id of a sx::kf
point in a harness) and the defects repaired in /repo (they suppress nothing)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
K = []
def known(id, prop, what): K.append(dict(id=id, property=prop, status='known', what=what))
def fixed(prop, commit, what): K.append(dict(property=prop, status='fixed', record='fixed: property=%s %s %s' % (prop, commit, what)))
exec(open(os.path.join(V, 'tools', 'findings.py')).read())
with open(os.path.join(V, 'known_findings.jsonl'), 'w') as f:
    for k in K: f.write(json.dumps(k) + '\n')
print(len(K))
