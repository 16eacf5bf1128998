#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check files."""
import ast
import json
import os
import subprocess

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {'exploration': 'bounded exhaustive enumeration of executions of freshly generated and compiled extension modules, every outcome compared with an oracle',
        'model_checking': 'explicit-state reference model explored exhaustively, every trace replayed in lock step on freshly generated and compiled extension modules',
        'fault_enumeration': 'exhaustive enumeration of fault placements on the real generator/extension, every outcome compared with an oracle'}


def consts(path):
    d = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return d


checks, na = [], []
for line in open(os.path.join(here, 'properties.jsonl')):
    pid = json.loads(line)['id']
    path = os.path.join(here, 'checks', pid.lower() + '.py')
    if not os.path.exists(path):
        na.append({'property': pid, 'reason': 'model checking applies, but the check is not built yet'})
        continue
    c = consts(path)
    level = c.get('LEVEL', 'model_checking')
    bounds = c.get('BOUNDS', '')
    if isinstance(bounds, dict):
        bounds = 'quick: %s; thorough: %s' % (bounds['quick'], bounds['thorough'])
    note = c.get('NOTE') or ('Complete within the bounds (%s) on the code generated by the current tree; trusts g++, CPython, the C++ probes of '
                             'the harness and the reference model or oracle in the check file.' % bounds)
    checks.append({'property': pid, 'quick_cmd': './check %s --tier quick' % pid, 'thorough_cmd': './check %s --tier thorough' % pid,
                   'technique': c.get('TECHNIQUE', TECH[level]), 'level': level, 'level_note': note})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks drive the public API and observe the generated extensions from outside.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
