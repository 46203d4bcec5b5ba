#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table of claimed properties."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'ec'))
import driver
driver.specs()
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = {}
if os.path.exists(os.path.join(ROOT, 'tools', 'na.json')):
    NA = json.load(open(os.path.join(ROOT, 'tools', 'na.json')))
TECH = 'abstract interpretation of MIR to closed-form function summaries (loops solved as recurrences), compared with the specified closed form by random interpretation (identity testing)'
TECH2 = {'C34': 'effect analysis over the resolved call graph (MIR callee allowlist)', 'C35': 'value-range analysis of every narrowing cast site in MIR'}
NOTE = ('Decides, on every path of the anchored functions, that the derived summary equals the specified function. A disagreement is a '
        'concrete argument tuple at which the two closed forms differ, with the function and path; functions for which no closed form can '
        'be derived are listed as undecided in the evidence and nothing is claimed for them. Trusted: the MIR exporter, the models of '
        'std / num-bigint / num-integer operations, the loop-solving rules, and the error probability of identity testing; machine integers '
        'are treated as unbounded (exponents and subscripts below 2^31).')
NOTE2 = {'C34': 'Every body of the library crate (closures and promoted constants included) is scanned; a violation names the call site, its effect and a call chain from a public function. Calls into num-*, primes and the pure part of std are trusted to have no effect; flow through function values is covered because every mention of a function counts as a use.',
 'C35': 'Interval dataflow over every body with refinement by guards and over calls. A site is proved when the over-approximation lies in the target type, reported when an under-approximation (values some argument certainly brings to the site) does not, and otherwise listed as undecided; lengths of collections are never reported.'}
checks, na = [], []
for p in props:
    i = p['id']
    if i in driver.PROPS or i in driver.LINTS:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'technique': TECH2.get(i, TECH), 'level': 'other', 'level_note': NOTE2.get(i, NOTE)})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No static argument built for it.')})
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.path.insert(0,\'ec\'); import mir; mir.build_driver()"',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the analysis reads the MIR that rustc builds from the unmodified tree. Repairs are listed in known_findings.txt.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
