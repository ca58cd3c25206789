#!/usr/bin/env python3
"""Writes spec/errors.json: the messages reported as errors, per program (run by hand on a reviewed tree)."""
import sys, json, re; sys.path[:0] = ['/verif/lib', '/verif/checks']
import prog, c01
r = {}
for n in ('cc1', 'cpp', 'ucc'):
    p = prog.load(n)
    e, w, d = c01.messages(p)
    r[n] = {'error': sorted({m for m, _ in e} - {m for m, _ in w}), 'direct': sorted({m for m, _ in d if re.search(r'[Uu]nknown|unrecogni|requires|needs a|arse t|target triple|^open|^close|Only x86|visibility|sanitize', m) and not m.startswith(' ')})}
json.dump(r, open('/verif/spec/errors.json', 'w'), indent=0, sort_keys=True)
for n in r:
    print(n, len(r[n]['error'])); print(r[n]['direct'])
