"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
}
NA = {}
BASE = ('Deductive: the real modules are parsed from /repo on every run, executed symbolically for arbitrary N, M, D and arbitrary '
        'real inputs, and every clause of the contract is discharged (term normal form, sign/case analysis, z3). Trusted: the '
        'Python and NumPy semantics of the verifier, z3, real arithmetic for machine arithmetic. The companion run on the real '
        'code is bounded and only replays counterexamples or stands in for clauses that could not be discharged.')
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in NA:
        na.append({'property': p, 'reason': NA[p]})
        continue
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
                   'technique': 'contract-based deductive verification of the real source (symbolic execution to verification '
                                'conditions, discharged by normalisation and z3)',
                   'level': 'proof', 'level_note': NOTE.get(p, BASE)})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/selftest.py', 'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
