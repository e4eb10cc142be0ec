#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'N02': 'mapping an address to a frame is a pure function of the debug file; the native crate needs crates that are not available offline',
 'N04': 'minidump processing is a function of the minidump; rust-minidump crates are not available offline',
 'N05': 'the HTTP layer needs axum, which is not available offline (the proxy endpoint alone runs with a stand-in, see O04), and request validation is a pure function of the request',
}
NOTE = {
 'symsorter': 'Seeded search over inputs, thread schedules and file faults of the real binary in a process simulator; every run is compared with a model of the whole output. Samples, does not enumerate; preemption at system calls, synchronisation and allocations; crash = process death.',
 'wasm-split': 'Seeded search over modules, histories of runs and file faults of the real binary in a process simulator; outputs are compared with a model of the sections. Samples, does not enumerate; crash = process death.',
 'svc': 'Seeded search over workloads, task and thread schedules, clock behaviour, network and disk faults and crashes of the real service code in a process simulator, checked against reference models. Samples, does not enumerate; network, moka, and some leaf crates are deterministic stand-ins (see DESIGN.md); crash = process death.',
}
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 run.py setup',
         hooks=checks.HOOKS,
         checks=[dict(property=p, quick_cmd='python3 run.py check %s' % p, thorough_cmd='VERIF_TIER=thorough python3 run.py check %s' % p, evidence_file='evidence/%s.json' % p,
                      technique='deterministic simulation with fault injection: seeded search over schedules and faults of the real code, reference model as oracle',
                      level='exploration', level_note=NOTE.get(checks.CHECKS[p][0], NOTE['svc'])) for p in props if p in checks.CHECKS],
         not_applicable=[dict(property=p, reason=NA.get(p, 'no check yet')) for p in props if p not in checks.CHECKS])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
