"""Writes MANIFEST.json from contracts/props.py."""
import json
import os
import sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, '.')
sys.dont_write_bytecode = True
from contracts.props import PROPS
checks = []
for p in sorted(PROPS):
    c = PROPS[p]
    proof = c['level'] == 'proof'
    checks.append({
        'property': p,
        'quick_cmd': 'python3-vt check.py %s' % p,
        'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % p,
        'technique': 'contract-based deductive verification of the Python source (own VC generator, '
                     'z3 and exact automata)' if proof else
                     'bounded stand-in for contract-based deductive verification: executable contract '
                     'checked on generated inputs',
        'level': c['level'],
        'level_note': c['note'] + ' Bounded stand-in, not counted as proved: ' + c['bounded'] + '. '
                      'Assumptions and unverified parts are listed in the evidence and in DESIGN.md.'})
json.dump({'version': 1, 'setup_cmd': 'python3-vt setup.py', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks in /repo: contracts live in /verif/contracts and are checked against the '
                    'AST of the functions read from /repo on every run.'},
          open('MANIFEST.json', 'w'), indent=1)
