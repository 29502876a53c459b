#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks that exist under mc/checks."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = {
 'C01': 'explicit enumeration of all containers x contents, replayed on the real decoder against a reference codec',
 'C02': 'explicit-state exploration of operation sequences; each written file checked by a strict reference SFNT reader',
 'C03': 'bounded-exhaustive enumeration of glyph and table shapes through the real WOFF2 writer, decoded by the library and a reference decoder',
 'C04': 'bounded-exhaustive enumeration of fonts x glyph lists on the real subsetter against a reference model',
 'C05': 'bounded-exhaustive enumeration of CFF subroutine structures x glyph lists on the real subsetter against a reference interpreter',
 'C06': 'bounded-exhaustive enumeration of maps, kern pairs and glyph lists on the real subsetter against a reference model',
 'C07': 'explicit-state exploration of operation sequences with byte-level and observable snapshots of every input',
 'C08': 'bounded-exhaustive enumeration of font pairs on the real merger against a reference model',
 'C09': 'bounded-exhaustive enumeration of CFF font pairs and subroutine layouts on the real merger against a reference interpreter',
 'C10': 'explicit-state exploration of all operation sequences up to a depth, comparing memory and re-parsed bytes in every state',
 'C11': 'bounded-exhaustive enumeration of character maps replayed on the real lookup against a reference decoder',
 'C12': 'bounded-exhaustive enumeration of point sequences and component trees against a reference outline model',
 'C13': 'bounded-exhaustive enumeration of Type 2 programs against a reference interpreter',
 'C14': 'bounded-exhaustive enumeration of kerning tables against a reference model',
 'C15': 'bounded-exhaustive enumeration of metrics tables against a reference model',
 'C16': 'explicit-state exploration of name operation sequences against a reference map',
 'C17': 'exhaustive enumeration of single and paired faults (truncations, field values) of every container, executed on the real parsers',
 'C18': 'exhaustive enumeration of expansion shapes with measured allocation in child processes',
 'C19': 'stateless model checking of the implementation under a controlled scheduler, all 2-thread interleavings up to 2 preemptions, plus race detector runs',
 'C20': 'bounded-exhaustive enumeration of AFM files against a reference reader',
 'C21': 'exhaustive enumeration of styles, font sets and queries against a reference model',
 'C22': 'exhaustive enumeration of command lines and fault points on the built tool in scratch directories',
 'C23': 'exhaustive enumeration of name tables and CFF dictionaries against an independent encoder and reader',
}
NOTE = {
 'default': 'every element of the stated bounded space is executed on the code built from the current tree; bounds and counts are in DESIGN.md and in the evidence; inputs outside the bounds are not covered',
 'C19': 'all pairs of operations with one preemption at every statement of an instrumented copy of the current tree, and with two preemptions within the bounds given in the evidence; three threads for equal operations in the thorough tier; the race detector runs every pair in both orders without synchronisation between the goroutines',
}
NA = []
checks = []
for c in sorted(T):
    if not os.path.exists(os.path.join(here, 'mc', 'checks', c.lower() + '.go')):
        NA.append({'property': c, 'reason': 'no check has been built yet'})
        continue
    checks.append({
        'property': c,
        'quick_cmd': './check.sh %s quick' % c,
        'thorough_cmd': './check.sh %s thorough' % c,
        'technique': 'model checking: ' + T[c],
        'level': 'model_checking',
        'level_note': NOTE.get(c, NOTE['default']),
    })
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': NA}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks,', len(NA), 'without')
