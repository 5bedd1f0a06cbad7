#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
T = {
 'C01': "seeded simulation of a failing input device, allocator and exception mask; oracle: independent number scanner over the bytes",
 'C02': "seeded simulation of delivery schedules; oracle: equality with the one-buffer delivery of the same bytes",
 'C03': "seeded simulation of multi-record histories with corruption, transient device failures, clear and skip; oracle: independent record scanner",
 'C04': "seeded simulation of failing output devices and allocator; oracle: prefix of the fault-free bytes and visible failure",
 'C05': "seeded simulation of manipulator histories with failing insertions; oracle: shadow stream and formatting snapshot",
 'C06': "seeded allocation-failure injection in encoders; oracle: fault-free text, heap accounting",
 'C07': "seeded simulation of a crash-prone disk (torn, lost tails, restarts); oracle: model of acknowledged records",
 'C08': "seeded simulation of locale switches between and inside calls; oracle: classic-locale and stream-locale text of a pristine process",
 'C09': "seeded scheduler over real threads at memory-access granularity with vector-clock race detection; oracle: result of each call alone",
 'C10': "seeded scheduler over real threads at memory-access granularity with vector-clock race detection; oracle: text, value and state of each call alone",
 'C11': "seeded simulation of process life (pre-main, racing first calls, allocation failure, exit phase); oracle: configured texts, documented values, and for other operations what they yield in main",
 'C12': "seeded call histories with allocation, device and clock faults; oracle: the same call made first in a pristine process",
 'C13': "seeded dataflow with failing reads and null overwrites; oracle: taint propagation and undisturbed twin run",
 'C14': "seeded allocation-failure injection in every arithmetic operation; oracle: result with memory available",
 'C15': "seeded simulation of dead devices with request and step budgets; oracle: bounded progress, no consumption after failure",
 'C16': "seeded call histories with faults; oracle: ambient-state snapshots before and after each call",
 'C17': "seeded nesting of calls at instrumented steps (signal handlers) and device requests (re-entrant devices); oracle: every call's result alone",
 'C18': "seeded two-party conversation over simulated channels with fragmentation, stalls, back-pressure and party crashes; oracle: values sent, progress (no deadlock), visible failure",
 'C19': "seeded ending of threads (pthread_exit, cancellation) at device bytes of their calls under preemption by other threads; oracle: later calls alone, prefix of the text, heap accounting, survival of the process",
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in T:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': 'deterministic simulation with fault injection: ' + T[i], 'level': 'exploration',
            'level_note': 'Seeded search over fault sequences, schedules and inputs against the real code; a clean batch is evidence, not proof. Every violation is replayed twice in fresh processes and minimised before it is reported. Trusts libstdc++, the compiler and the oracle.'})
    else:
        na.append({'property': i, 'reason': 'Pure function of its operands: no schedule, clock, fault, I/O or history enters it, so there is nothing for a simulator to decide; generating inputs for it would be property-based testing or proof, not this technique. (That its result is the same under any interleaving, history, allocation failure or null input is decided by C09, C12, C13 and C14.)'})
m = {'version': 1, 'setup_cmd': 'python3 check.py --build', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: streams, the allocator and the compiler\'s -fsanitize=thread call-outs are the seams. Six fix: commits in /repo, listed in known_findings.txt. Replay: python3 check.py <id> --replay FILE.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
