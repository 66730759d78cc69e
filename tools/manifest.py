#!/usr/bin/env python3
"""Writes MANIFEST.json: claimed checks and not-applicable reasons."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ASYNC = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06']
SYNC = ['C%02d' % i for i in range(7, 19)] + ['C20', 'C21']
NA = {
 'C19': 'rejecting ill-formed charts is a property of the compiler run: nothing executes, so there is no schedule, input history or fault a simulation could vary',
}
def note(p):
    if p in ASYNC:
        return ('Seeded exploration: every lock, wait, notify, atomic, allocation and (in part of the runs) memory access of the real library code is a scheduling point decided by the seed; '
                'histories are checked against the property and every access against a vector-clock race detector. Bounded program sizes; sampled, not exhaustive; sequentially consistent interleavings.')
    return ('Seeded exploration of operation sequences and faults on generated charts running the real library, compared step by step with an executable reference model. '
            'Fixed family of charts, bounded history lengths; sampled, not exhaustive.')
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = [dict(property=p, quick_cmd='python3 run.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 run.py ' + p, technique='deterministic simulation with fault injection, seeded search',
          level='exploration', level_note=note(p)) for p in ids if p in ASYNC + SYNC]
na = [dict(property=p, reason=NA.get(p, 'check not built yet')) for p in ids if p not in ASYNC + SYNC]
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
