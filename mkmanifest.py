"""regenerates MANIFEST.json (run by hand after adding a property)"""
import json
CLAIM = ['C%02d' % i for i in range(1, 28)]
import os
T = 'contract-based deductive verification: symbolic execution of the real source against contracts, obligations discharged by Z3; refutations replayed on the real code, with a bounded concrete supplement'
NOTES = json.load(open('notes.json')) if os.path.exists('notes.json') else {}
NA = {'C26': 'the guarantee is about the numerical behaviour of external routines (scipy.optimize, pyneqsys, pygmo, SUNDIALS): no contract over this code base can bound their floating-point error, and the deductive verifier has no contract for them beyond "returns what it returns"; the parts that are this code (what is handed to the routine, how failure and results are treated) are C17 and C25'}
checks = []
na = []
for l in open('properties.jsonl'):
    p = json.loads(l)['id']
    if p in NA:
        na.append(dict(property=p, reason=NA[p]))
    elif os.path.exists('specs/%s.py' % p.lower()):
        lv = NOTES.get(p, {})
        checks.append(dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='python3 check.py %s --thorough' % p,
                           technique=lv.get('technique', T), level=lv.get('level', 'proof'),
                           level_note=lv.get('note', 'every obligation generated from the current source is discharged by Z3 for all inputs; see DESIGN.md for the trusted contracts')))
    else:
        na.append(dict(property=p, reason='check under construction'))
json.dump(dict(version=1, setup_cmd='python3 setup_check.py', checks=checks, not_applicable=na), open('MANIFEST.json', 'w'), indent=1)
