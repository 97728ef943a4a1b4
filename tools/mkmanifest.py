#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the registered units (development tool)."""
import json, os, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python3'
out = subprocess.check_output([PY, V + '/corvc/run.py', '--list'], text=True)
units = json.loads([l for l in out.splitlines() if l.startswith('LIST ')][0][5:])
NOTE_T = 'Trusts rustc MIR construction, the corvc obligation generator, the contracts assumed for std/ndarray/rayon and the solvers; f64 is treated as real arithmetic with nan/infinity flags (no rounding). '
NOTE_H = 'Bounded oracles run the compiled code on random cases on top; they search for failing inputs and are never counted as proved.'
EXTRA = json.load(open(V + '/tools/notes.json'))
checks = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    n = [u for u in units if p in u['props']]
    c = {'property': p, 'quick_cmd': 'python3 check.py %s --tier quick' % p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p, 'evidence_file': 'evidence/%s.json' % p}
    if n:
        c['technique'] = 'contract-based deductive verification of the MIR of /repo (corvc obligations, z3/cvc5), plus bounded oracles'
        c['level'] = 'proof'
        c['level_note'] = ('%d verification units. ' % len(n)) + NOTE_T + EXTRA.get(p, '') + (' ' if EXTRA.get(p) else '') + NOTE_H
        c['theorems'] = [u['uid'] for u in n]
    else:
        c['technique'] = 'bounded randomized check against the compiled code (stand-in; no contract within reach yet)'
        c['level'] = 'exploration'
        c['level_note'] = EXTRA.get(p, 'Bounded: random cases only, nothing is proved.')
    checks.append(c)
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks are needed: the obligations are generated from the MIR of /repo as it is, and the bounded oracles use its public interface.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(sum(c['level'] == 'proof' for c in checks), 'proof of', len(checks))
