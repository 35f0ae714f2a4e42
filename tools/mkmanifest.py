#!/usr/bin/env python3
"""writes MANIFEST.json: one check per props/pNN.py"""
import json, os, glob
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
have = {os.path.basename(f)[:-3].upper() for f in glob.glob(H + '/props/p[0-9]*.py')}
NA = json.load(open(H + '/tools/not_applicable.json'))
checks = []
for p in props:
    if p['id'] in have and p['id'] not in NA:
        checks.append({'property': p['id'], 'quick_cmd': 'python3-vt /verif/check.py ' + p['id'], 'thorough_cmd': 'python3-vt /verif/check.py %s --thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': 'contract-based deductive verification: contracts on the real functions, obligations generated from their compiled IR on every run, loops by summarisation for all iterations, discharged by z3; failed obligations replayed natively against an exact-integer oracle',
            'level': 'proof',
            'level_note': 'Every obligation of the listed contracts is regenerated from /repo and discharged for all inputs (no bound) except those labelled bounded in the evidence; trusts clang 18 and the listed LLVM passes, the verifier in /verif/vc and z3; index and accumulator additions and multiplications are treated as mathematical unless stated otherwise. Further assumptions are in the evidence file.'})
na = [{'property': k, 'reason': v} for k, v in NA.items()]
na += [{'property': p['id'], 'reason': 'no check is finished for it yet'} for p in props if p['id'] not in have and p['id'] not in NA]
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3"', 'checks': checks, 'not_applicable': na}, open(H + '/MANIFEST.json', 'w'), indent=1)
print('checks', [c['property'] for c in checks], 'not applicable', [n['property'] for n in na])
