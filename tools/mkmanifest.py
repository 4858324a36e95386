#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import registry
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks: the checks compile /repo as it is. Engine, bounds and stubs: DESIGN.md.'}
for p in props:
    i = p['id']
    if i in registry.PROPS:
        b = '; '.join(r['bounds'] for r in registry.PROPS[i]['runs'] if r.get('tier', 'both') != 'thorough' and r['bounds'])
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': 'symbolic execution of the compiled code (LLVM IR) with an SMT solver (Z3, bit-vectors), counterexamples replayed natively',
            'level': 'model_checking', 'level_note': 'Holds for every value within the bounds (' + b[:900] + '); nothing is claimed outside them. Trusts clang -O1 IR, the executor in engine/ (sample paths are replayed natively on each run) and Z3.'})
    else:
        m['not_applicable'].append({'property': i, 'reason': registry.NA.get(i, 'check not built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'n/a')
