#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the harnesses present and the notes below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
TECH = 'symbolic execution of the real Python source to SMT (z3): every path of the bounded inputs, each assertion discharged by the solver, counterexamples replayed on the unmodified code'
NOTE = ('Every value within the bounds in the evidence file (inputs symbolic{sched}); the solver decides each assertion on each path. Trusted: the models of the Python '
        'built-ins, re, datetime{env} in /verif/engine, which every run cross-checks by replaying sampled paths of each job natively on the unmodified code; z3.')
CONC = {'P13', 'P14', 'P15', 'P16', 'P17', 'P20', 'P21', 'P22', 'P23', 'P24', 'P25', 'P26', 'P27', 'P28', 'P29', 'P30', 'P18', 'P19', 'P35', 'P36', 'P37', 'P38', 'P39', 'P40'}
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(os.path.join(HERE, 'harness', i.lower() + '.py')):
        c = i in CONC
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TECH, 'level': 'model_checking',
                       'level_note': NOTE.format(sched=', schedules and modem behaviour solver-chosen' if c else '', env=', threading and the serial port' if c else '')})
    else:
        na.append({'property': i, 'reason': 'no check built yet'})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3, sys; print(z3.get_version_string())"', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo are needed: the engine executes the source under /repo/gsmmodem directly.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
