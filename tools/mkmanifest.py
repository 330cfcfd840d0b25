#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = ('TLA+ state machine (spec/Pigo.tla); TLC decides, event by event, whether histories recorded from the real code '
         'are behaviours of it (spec/PigoTrace.tla)')
GEN = ('TLA+ model enumerated exhaustively by TLC; every generated history is replayed into the real code and the recorded '
       'events are checked against the TLA+ state machine with TLC')
BASE = ('Every recorded event of every generated history is decided by TLC against the specification; coverage of inputs is '
        'bounded and sampled (seeded) as DESIGN.md says per property. Trusts the driver that records events, TLC and gcc.')
C = {
 'C01': (TRACE, ''), 'C02': (TRACE, ''), 'C03': (TRACE, ''), 'C04': (TRACE, ''), 'C05': (TRACE, ''),
 'C06': (TRACE, ''), 'C07': (TRACE, ''), 'C08': (TRACE, ''), 'C09': (TRACE, ''), 'C10': (TRACE, ''), 'C11': (TRACE, ''),
 'C12': (TRACE, ''), 'C15': (GEN, ''), 'C16': (GEN, ''), 'C17': (TRACE, ''), 'C18': (TRACE, ''), 'C19': (TRACE, ''),
 'C20': (TRACE, ''),
 'C13': ('Schedules chosen by our own OpenMP runtime (harness/sched.cpp); results checked by TLC against the TLA+ state machine '
         '(spec/PigoTrace.tla) and recorded memory accesses against a happens-before model of OpenMP (spec/OmpMem.tla)', ''),
 'C14': ('Recorded memory accesses of malformed, truncated and ordinary inputs checked by TLC against a TLA+ model of objects and '
         'their bounds (spec/OmpMem.tla); results, and crashes seen by AddressSanitizer, against spec/PigoTrace.tla', ''),
 'C21': (TRACE, 'Every build configuration is compiled; one that does not build is a violation.'),
 'C22': ('Laws of the composed pipeline checked exhaustively on small inputs by TLC (spec/MCCanon.tla); runs of the documented '
         'example programs and of the same pipelines in the driver checked against the specification by TLC (spec/ExTrace.tla, '
         'spec/PigoTrace.tla)', ''),
}
try:
    exec(open(os.path.join(V, 'tools', 'claims.py')).read())
except FileNotFoundError:
    pass
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in sorted(C):
    t, n = C[p]
    checks.append({'property': p, 'quick_cmd': 'python3 run.py --property ' + p,
                   'thorough_cmd': 'python3 run.py --tier thorough --property ' + p,
                   'technique': t, 'level': 'model_checking', 'level_note': (n + ' ' + BASE).strip()})
na = [{'property': p, 'reason': 'check under construction'} for p in ids if p not in C]
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
