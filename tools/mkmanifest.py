#!/usr/bin/env python3
# Writes MANIFEST.json from registry.py and properties.jsonl.
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from registry import PROPS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPS:
        note = PROPS[i].get('note', '')
        checks.append(dict(property=i, quick_cmd='python3 run.py %s --quick' % i, thorough_cmd='python3 run.py %s --thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique='symbolic execution of the LLVM bitcode of the real sources with Z3 (bounded)', level='model_checking',
                           level_note=(note + ' ' if note else '') + 'Every value of the symbolic inputs within the stated bounds is decided by the solver; counterexamples are replayed on the natively compiled code before they are reported. Trusts engine/vfsym.cpp (cross-checked by native replays of passing paths), Z3, clang, and the stand-ins for system, heap and zlib in engine/env*.c.'))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='python3 run.py --setup', hooks=dict(guard='VF_HOOKS', enable='no hooks are needed: /repo is compiled unmodified, system symbols are renamed in the object code', source_commits=[]), checks=checks, not_applicable=na,
         notes='run.py PID runs one property; registry.py lists harnesses and bounds; known_findings.json lists defects found.')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
