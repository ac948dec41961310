#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import props
checks = []
for pid, P in sorted(props.P.items()):
    note = P.get('note', '')
    if P['bounded']:
        note += ' Bounded (replay driver on generated cases, not proved): ' + ', '.join(P['bounded']) + '.'
    note += ' Assumes: ' + '; '.join(props.COMMON[:1]) + '; assumed contracts on OR-Tools/numpy/random as listed in the evidence file.'
    checks.append(dict(property=pid, quick_cmd=f'./check.py {pid} --tier quick', thorough_cmd=f'./check.py {pid} --tier thorough',
                       evidence_file=f'evidence/{pid}.json',
                       technique='contract-based deductive verification of the repository AST (VC generator + z3/cvc5)' +
                       (' with a bounded stand-in for functions without a discharged contract' if P['bounded'] else '; replay driver for counterexamples'),
                       level=P['level'], level_note=note.strip()))
m = dict(version=1, setup_cmd='python3-vt -B tools/setup_check.py', checks=checks, not_applicable=[],
         notes='No hooks in /repo. Contracts: contracts/*.py; VC generator: engine/; replay drivers: dyn/; known_findings.json lists recorded and repaired defects.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
