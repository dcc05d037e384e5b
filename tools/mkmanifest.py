#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from checks import CHECKS
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p['id'])
    if not c:
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'no check built yet')})
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3 tools/vp.py %s quick' % p['id'], 'thorough_cmd': 'python3 tools/vp.py %s thorough' % p['id'],
                   'technique': 'symbolic execution of the LLVM IR of the real sources with SMT (z3) and exact rational-function decisions, counterexamples replayed natively',
                   'level': c.get('level', 'model_checking'),
                   'level_note': 'Bounded: ' + '; '.join('%s: %s' % (e['name'], e['bound']) for e in c['entries']) + '. ' + ' '.join(c.get('assumptions', [])) + ' Trusts clang 18, z3, the engine in /verif/engine, libsdd, libstdc++ and GMP; rounding of doubles is outside unless stated.'})
json.dump({'version': 1, 'setup_cmd': 'make -s -j8 -C engine', 'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. No hooks in /repo are needed.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
