#!/usr/bin/env python3
"""Writes MANIFEST.json (kept in step with engine/props.py)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import props

SIM = 'abstract interpretation of the MIR to a fixpoint, simulated against a reference automaton'
NOTE = ('Sound over-approximation over all argument lists (any length, any bytes) for each listed definition; '
        'trusted: rustc front end, the library models and the reference automaton in /verif/engine. '
        'Definitions are a fixed family using every construct the macros accept, not all definitions.')
TECH = {}
NOTES = {}
for k in props.CHECKS:
    TECH[k], NOTES[k] = getattr(props.CHECKS[k], 'technique', SIM), getattr(props.CHECKS[k], 'note', NOTE)
NA = {
    'C22': 'speed and binary size are quantities of the generated machine code; no static argument over the source bounds them',
    'C23': 'needs a second implementation (clap) as oracle over all inputs; clap\'s own parser is out of reach of this analysis, and palc documents deliberate differences',
}
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
m = dict(version=1, setup_cmd='python3 engine/build.py',
         checks=[dict(property=k, quick_cmd='python3 check.py %s quick' % k, thorough_cmd='python3 check.py %s thorough' % k,
                      technique=TECH[k], level=getattr(props.CHECKS[k], 'level', 'other'), level_note=NOTES[k]) for k in ids if k in props.CHECKS],
         not_applicable=[dict(property=k, reason=NA.get(k, 'check under construction')) for k in ids if k not in props.CHECKS],
         notes='Static analysis only: nothing under test is executed. See DESIGN.md.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
