#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py, properties.jsonl and the reasons below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from registry import PROPS
NA = {
 'C01': 'Needs several OpenMP threads or MPI ranks inside whole-simulation loops (thousands of particles, tree walks, message passing); OpenMP regions are compiled out of this build and an MPI library is not installed, and a symbolic encoding of every schedule of those loops is out of reach.',
 'C02': 'Statement about complete simulations (thousands of particles, thousands of steps, transcendental time stepping): the unrolled computation cannot be encoded symbolically; the per-step laws it rests on are claimed separately.',
}
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i not in PROPS: continue
    b = PROPS[i].get('bounds', '')
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
       technique='symbolic execution of LLVM IR compiled from /repo, SMT (z3) verdict per path and obligation, counterexamples replayed on the native code', level='model_checking',
       level_note='Bounds: ' + b + '. Floating point is read as real arithmetic with a 1e-6 relative tolerance; libm functions are uninterpreted with axioms; obligations the solver cannot settle in its time limit are reported as inconclusive in the evidence, not as passes.'))
na = [dict(property=i, reason=NA.get(i, 'No check has been built for this property yet.')) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd='make -s -j4 -C engine B=../build', checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); print(len(checks), 'checks', len(na), 'not applicable')
