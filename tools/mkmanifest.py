#!/usr/bin/env python3-vt
"""regenerates MANIFEST.json: every property with contracts is claimed"""
import sys, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from vf import runner, contract
runner.load()
have = {}
for c in contract.REG:
    for p in c.props: have.setdefault(p, []).append(c)
NA = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
checks = []; na = []
for l in open(os.path.join(V, 'properties.jsonl')):
    pid = json.loads(l)['id']
    if pid in have and pid not in NA:
        checks.append(dict(property=pid, quick_cmd='./check %s' % pid, thorough_cmd='./check %s --tier thorough' % pid, technique='contract-based deductive verification: contracts on the real functions, verification conditions generated from the LLVM IR of the current source and discharged by z3', level='proof', level_note=NOTE.get(pid, DEFAULT)))
    else: na.append(dict(property=pid, reason=NA.get(pid, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
