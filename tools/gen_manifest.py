#!/usr/bin/env python3
"""Writes MANIFEST.json. Claimed: the properties that have scenarios (argument list)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
claimed = open(os.path.join(here, 'tools', 'claimed.txt')).read().split()
NA = {
 'N01': 'A pure function of the file contents: no schedule, clock, I/O or fault changes the answer, so simulation has nothing to decide (its input space belongs to property-based testing).',
 'N02': 'A pure function of the parsed files and configuration; nothing nondeterministic takes part.',
 'N03': 'A pure function of two descriptor sets; nondeterminism enters only in how they are obtained, which C14 covers.',
 'N04': 'A pure function of path, configuration and template; the I/O side of create is C15.',
 'N05': 'A pure function of the configuration text; reading it from a failing file system is C16.',
}
NOTE = ('Seeded search over schedules and faults: evidence, not proof. Runs the real prototool code (internal/cmd.Do and below, grpc-go, gofrs/flock) on a simulated '
        'operating system; protoc, its plugins, git and diff are stubs that honour the real command lines. Interleavings are explored at system calls, locks, timers and network events. '
        'A completed write counts as durable (process crashes, not power loss).')
checks = []
for p in props:
    if p['id'] not in claimed:
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'bash check.sh ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough bash check.sh ' + p['id'],
                   'technique': 'deterministic simulation with fault injection', 'level': 'exploration', 'level_note': NOTE})
na = [{'property': k, 'reason': v} for k, v in NA.items()]
for p in props:
    if p['id'] not in claimed and p['id'] not in NA:
        na.append({'property': p['id'], 'reason': 'Check not built yet.'})
m = {'version': 1, 'setup_cmd': 'bash build.sh .build/setup && rm -rf .build/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the simulator is built from /repo\'s working tree with go build -overlay, replacing os, os/exec, net, time-free runtime parts and similar imports at build time.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
