#!/usr/bin/env python3
import json, os
from props import PROPS
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
 'N01': 'A pure function of its argument: no concurrency, time, I/O or other party is involved, so there is nothing for a simulator to schedule or to fail.',
 'N02': 'URI splitting is a pure function of a string; simulation has no nondeterminism to control here.',
 'N03': 'Formatting of sizes and durations is a pure function of a number; simulation has no nondeterminism to control here.',
 'N04': 'Probabilities are arithmetic on counts held in memory, a pure function of the training data; the parts with I/O are claimed as K01.',
}
checks = []
for p in props:
    i = p['id']
    if i in PROPS:
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {i}', 'technique': 'deterministic simulation with fault injection: seeded search over schedules and faults, checked against a reference model',
                       'level': PROPS[i].get('level', 'exploration'), 'level_note': PROPS[i].get('note', 'Real program code under a simulator that decides every thread interleaving, key press, clock, file or network operation and fault from one seed; violations come with a replay file. Bounded by exploration time; assumes the simulated system calls behave like Linux and that a kill loses only unwritten user-space data.')})
na = [{'property': p['id'], 'reason': NA.get(p['id'], 'check not built yet')} for p in props if p['id'] not in PROPS]
json.dump({'version': 1, 'setup_cmd': 'python3 build.py', 'hooks': {'guard': 'PWNED_SIM', 'enable': 'no hook was needed: the sources are compiled unchanged with -Dmain=<tool>_main and the simulator takes the place of the C library, pthread and operating system calls at link time', 'source_commits': []}, 'checks': checks, 'not_applicable': na},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
