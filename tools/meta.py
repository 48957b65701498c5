#!/usr/bin/env python3
"""Generates /verif/properties.jsonl and /verif/MANIFEST.json from one description."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []


def prop(pid, title, statement, over, text, why, files, mechanism, state=(), observe=(), note=None,
         technique=None, na=None):
    PROPS.append({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
        'anchors': {'files': files, 'state': [dict(name=a, meaning=b, where=c) for a, b, c in state],
                    'mechanism': [dict(name=a, where=b) for a, b in mechanism],
                    'observe_at': list(observe), 'hook_needed': None}})
    if na:
        NA.append({'property': pid, 'reason': na})
    else:
        CHECKS.append((pid, technique, note))


CHECKS = []
SIM = 'deterministic simulation: seeded schedules'
SIMF = 'deterministic simulation with fault injection: seeded schedules and faults'
BASE = (' Seeded search, no exhaustiveness; trusts the simulated file system (POSIX and flock semantics), '
        'the stand-in compilers/likwid/IACA and the OSACA facade (DESIGN.md).')

K, CP, ICM = 'kerncraft/kernel.py', 'kerncraft/cacheprediction.py', 'kerncraft/incore_model.py'
LOCK = ('shared/exclusive lock file per intermediate', 'kerncraft/kernel.py lock_intermediate/release_exclusive_lock')
FRESH = ('freshness comparison of time stamps', 'kerncraft/kernel.py _check_freshness')
LOC = ('location of an intermediate derived from settings', 'kerncraft/kernel.py get_intermediate_location')
STORE = ('.<kernel>_kerncraft', 'directory of intermediates next to the kernel file', K)

exec(open(os.path.join(ROOT, 'tools', 'properties.py')).read())


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    m = {'version': 1,
         'setup_cmd': '/opt/venv/bin/python sim/selfcheck.py --setup',
         'checks': [{'property': pid,
                     'quick_cmd': '/opt/venv/bin/python sim/run.py -p %s --tier quick' % pid,
                     'thorough_cmd': '/opt/venv/bin/python sim/run.py -p %s --tier thorough' % pid,
                     'technique': t, 'level': 'exploration', 'level_note': n + BASE}
                    for pid, t, n in CHECKS],
         'not_applicable': NA,
         'notes': 'Replay: sim/run.py --replay FILE [--log]. Design: DESIGN.md. Known findings: known_findings.json.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
