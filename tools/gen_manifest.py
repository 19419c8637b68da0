#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harnesses present."""
import json, os, glob
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
NA = {}
NOTE = {}
checks, na = [], []
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if glob.glob(os.path.join(H, 'harness', i + '*.cpp')) and i not in NA:
        checks.append({'property': i, 'quick_cmd': './check.py %s --tier quick' % i,
                       'thorough_cmd': './check.py %s --tier thorough' % i,
                       'technique': 'symbolic execution of clang LLVM IR of the real headers; assertions decided by z3/cvc5 over all inputs within bounds; counterexamples replayed natively',
                       'level': 'model_checking',
                       'level_note': 'Bounded: holds for every value of the symbolic inputs at the stream lengths, sizes and feature lists each harness states (see evidence bounds). '
                       'Trusts clang -O1 lowering, the IR interpreter in engine/, z3; floating point is exact real arithmetic unless a harness says IEEE; allocation does not fail.' + NOTE.get(i, '')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && /usr/bin/clang++ --version', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
