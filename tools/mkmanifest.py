#!/opt/venv/bin/python
"""Writes MANIFEST.json from properties.jsonl and the contract registry."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from vf import common
common.import_repo()
from vf.pydv import verify
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    lv = verify.level(i)
    n = verify.note(i) if hasattr(verify, 'note') else ''
    checks.append(dict(property=i, quick_cmd=f'/opt/venv/bin/python vf/run.py {i}', thorough_cmd=f'VERIF_TIER=thorough /opt/venv/bin/python vf/run.py {i}',
        technique='contract-based deductive verification of the real functions (symbolic execution to SMT, z3/cvc5)' if lv == 'proof' else 'bounded stand-in: contracts evaluated on generated inputs',
        level=lv, level_note=n or 'Bounded stand-in, nothing proved: the contract is evaluated on generated inputs with the real code.'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import sys; sys.path.append(\'/opt/veriftools/pyvenv/lib/python3.12/site-packages\'); import z3, cvc5"',
    checks=checks, not_applicable=[], notes='see DESIGN.md; known findings and repaired defects: known_findings.json')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
