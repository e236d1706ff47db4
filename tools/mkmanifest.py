#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
tech = {
 'C01': 'deterministic simulation: seeded thread schedules over the real program, differential against the sequential schedule',
 'C02': 'deterministic simulation: output-side system call faults, differential against the fault-free run',
 'C03': 'deterministic simulation: read-side faults, differential against the fault-free run',
 'C04': 'deterministic simulation: arbitrary system call fault sequences, bounded-step liveness and outcome check',
 'C05': 'deterministic simulation: rejected programs and kill points, whole-tree comparison',
 'C06': 'deterministic simulation: faults and kill points, mutation log and whole-tree comparison',
 'C07': 'deterministic simulation: kill and restart at seeded points, differential against the uninterrupted run',
 'C08': 'deterministic simulation: short and interrupted calls, differential against the undisturbed run',
 'C09': 'deterministic simulation: seeded histories of runs in one process, differential against fresh processes',
 'C10': 'deterministic simulation: seeded heap layout, memory contents and clock, differential',
 'C11': 'deterministic simulation: operation histories against an executable reference model under schedules and transparent faults',
 'C12': 'deterministic simulation: schedules and a concurrent file modifier, consistency of binary, listing and symbols',
 'C13': 'deterministic simulation: refusing host object, protocol check and differential against model and file mode',
 'C14': 'deterministic simulation: schedules and faults, agreement of console, returned list and result',
 'C15': 'deterministic simulation: seeded encodings, read splits, interruptions and read errors against an executable reference model of the text',
 'C16': 'deterministic simulation: torn and zeroed input files at seeded positions, bounded-step liveness, differential against the intact run and over memory contents',
}
note = ('Seeded search, not proof: exit 0 means no violation in the runs listed in the evidence file. The whole of armips, libstdc++ streams and std::filesystem run as real code; '
        'threads, libc file calls, heap, stack contents and clock are decided by the simulator. Trusted: the simulator runtime, the oracle code, the compiler instrumentation.')
checks = []
na = []
for p in props:
    if p['id'] in tech:
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
                       'technique': tech[p['id']], 'level': 'exploration', 'level_note': note})
    else:
        na.append({'property': p['id'], 'reason': 'A pure function of the program text: no schedule, clock, fault, crash or history occurs in it, so deterministic simulation has nothing to vary.'})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the seams are compiler instrumentation and libc interposition (sim/).'}, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
