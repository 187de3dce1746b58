#!/opt/veriftools/pyvenv/bin/python3
"""Writes MANIFEST.json from the contract modules present."""
import os, sys, json, importlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT)
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'contracts', i + '.py')):
        mod = importlib.import_module('contracts.' + i)
        lvl = getattr(mod, 'LEVEL', 'proof')
        note = getattr(mod, 'NOTE', '') or mod.EXPLAIN
        if getattr(mod, 'ASSUMPTIONS', None): note += ' Assumes: ' + '; '.join(mod.ASSUMPTIONS) + '.'
        note += ' Trusted: rustc 2021-08 MIR construction and printer, the MIR parser/interpreter and std models in /verif/engine, z3, sympy; LLVM code generation.'
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': getattr(mod, 'TECHNIQUE', 'contract-based deductive verification of the rustc MIR of the real functions (pre/postconditions, loop invariants, per-function obligations discharged by symbolic execution over polynomial normal forms and z3); failed obligations replayed on the compiled code'),
                       'level': lvl, 'level_note': note})
    else:
        na.append({'property': i, 'reason': 'no contract built yet: not claimed'})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "from engine import build; build.build()"', 'checks': checks, 'not_applicable': na,
     'notes': 'Obligations are generated on every run from the MIR that rustc prints while it compiles /repo (tools/rustc_wrap.sh). See DESIGN.md.'}
hk = os.path.join(ROOT, 'tools', 'hooks.json')
if os.path.exists(hk): m['hooks'] = json.load(open(hk))
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
