#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
TECH = {
 'C13': 'deterministic simulation: seeded scheduler over reader threads, write-protected memory, each result against its single-threaded value',
 'C14': 'deterministic simulation: seeded scheduler over threads, hand-over of containers, reference model per container',
 'C16': 'deterministic simulation with a simulated foreign peer writing the shared layout; reference model; faults in comparators and releases',
 'C17': 'deterministic simulation with failing system allocations and impossible sizes; each simulated process watched for a controlled stop',
 'C21': 'deterministic simulation with a simulated foreign peer reading, editing and exchanging iterators on the same objects; reference model after every turn',
 'C22': 'deterministic simulation: seeded histories with steady flows and faults; memory outstanding at the simulated allocator bounded by the model after every operation',
 'C23': 'deterministic simulation: seeded histories; requests at the simulated allocator and calls of user code counted per operation and bounded by the model',
 'C24': 'deterministic simulation: contradicting answers of hash, equality and comparison injected at seeded calls; conservation of entries checked after every operation',
 'C11': 'deterministic simulation with allocation failure injected at seeded requests; state, ledger and recovery checked against a model',
 'C12': 'deterministic simulation with unwinding injected at seeded user callbacks; state, ledger and recovery checked against a model',
 'C10': 'deterministic simulation with unwinding destructors injected; per-element ledger checked after every operation',
}
NOTE = {
 '*': 'Seeded sampling of executions, not enumeration: a clean run is evidence within the histories sampled. Trusts the simulated allocator, the instrumented elements and the reference model (all in /verif/sim); each failure is minimised and replayed in a fresh process before it is reported.',
 'C13': ' Threads switch only at seams (allocator calls, callbacks, iterator steps), not between machine instructions; writes anywhere in between are caught by page protection instead.',
 'C14': ' Threads switch only at seams; weak-memory effects are out of reach (the crate has no atomics).',
 'C21': ' The peer is a model of the foreign library written from its published algorithms; strings are outside (their layout is not shared), trees are C16.',
 'C22': ' The constants (array capacity 4n+16; deque 3 spare blocks, pointer array 4 times the need; buckets 8 words per entry ever held) leave room for any sensible growth rule.',
 'C23': ' The constants leave room for any sensible growth rule and search; only requests and user calls are counted, not machine time.',
 'C24': ' Results under contradiction are only required to be entries that are there; a panic is tolerated if nothing is lost or corrupted.',
 'C16': ' The agreed layout is the crate\'s own public layout as shipped; the peer is a model of the foreign library written from it.',
}
NA = {
 'C19': 'A pure function of its input with no fault, schedule, history or environment in it; deterministic simulation has nothing to decide (guide: such a property is not a simulation target).',
 'C20': 'A compile-time constant per instantiation; no execution, fault or schedule is involved.',
}
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    checks.append({
        'property': i,
        'quick_cmd': f'python3 tools/check.py {i}',
        'thorough_cmd': f'env VERIF_TIER=thorough python3 tools/check.py {i}',
        'evidence_file': f'evidence/{i}.json',
        'technique': TECH.get(i, 'deterministic simulation: seeded histories with allocator, callback and placement faults against a reference model'),
        'level': 'exploration',
        'level_note': NOTE['*'] + NOTE.get(i, ''),
    })
m = {'version': 1, 'setup_cmd': 'python3 tools/check.py --build', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks in /repo: every seam (allocators, callbacks, global allocator, elements) already exists in the public API. Tier from VERIF_TIER, seed from VERIF_SEED. Replay: python3 tools/check.py --replay FILE.'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
