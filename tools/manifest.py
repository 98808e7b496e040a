"""Writes MANIFEST.json from the list of checks and the properties file."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Decides the stated rule for every path of every operation in the POSIX build, over all inputs, on an over-approximation '
        'computed from the LLVM IR of the current sources; trusts the models of libc, POSIX, PCRE2 and of the module '
        'interfaces (each module is analysed itself) in sa/models.py. ')
CLAIMS = {}
exec(open(os.path.join(HERE, 'tools', 'claims.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in CLAIMS and os.path.exists(os.path.join(HERE, 'sa', 'checks', p.lower() + '.py')):
        tech, note = CLAIMS[p]
        checks.append({'property': p, 'quick_cmd': 'python3 -m sa.run %s' % p,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 -m sa.run %s' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': tech, 'level': 'other',
                       'level_note': NOTE + note})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'No check has been built for this property yet.')})
m = {'version': 1, 'setup_cmd': 'python3 -c "from sa import ir; ir.load_program()"', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: /repo is analysed as it is. Recorded and repaired findings: known_findings.txt.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
