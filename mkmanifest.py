"""writes MANIFEST.json from plan.py (run by hand when the plan changes)"""
import json
import plan as P
checks = []
for p in P.ALL:
    b = P.BOUNDED[p]
    proof = not b
    checks.append({
        'property': p,
        'quick_cmd': 'python3-vt check.py %s quick' % p,
        'thorough_cmd': 'python3-vt check.py %s thorough' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': P.technique(p),
        'level': 'proof' if proof else 'exploration',
        'level_note': P.note(p)})
json.dump({'version': 1, 'setup_cmd': 'python3-vt setup.py', 'checks': checks, 'not_applicable': P.NOT_APPLICABLE}, open('MANIFEST.json', 'w'), indent=1)
