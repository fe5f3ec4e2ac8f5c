#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check  # noqa: E402
TECH = 'property-based testing: '
ORACLE = {
    'C01': 'generated addition/recomputation histories against batch statistics, order metamorphic relation',
    'C02': 'generated cells and queries against the Gaussian of the points; range, symmetry and ray monotonicity',
    'C03': 'generated grids, scans and queries (borders, overflow distances) against a reference map of cells',
    'C04': 'differential between query forms; metamorphic splits, orders and translations',
    'C05': 'stateful histories against a model',
    'C06': 'generated pose pairs and covariances against composition and inverse; rigid-motion relation',
    'C07': 'generated consistent pose graphs; round trip to the generating poses',
    'C08': 'generated inconsistent graphs; stationarity of the weighted error computed by the harness; rigid-motion relation',
    'C09': 'stateful histories; differential against a new solver',
    'C10': 'stateful histories against a set of bins',
    'C11': 'generated motions against exact composition',
    'C12': 'generated parameters and motions; moments of thousands of samples against the model',
    'C13': 'stateful histories with a scripted matcher against reference statistics of the published cloud',
    'C14': 'stateful histories; subset, bounds and stopping-rule oracle, frequencies against weights',
    'C15': 'generated scans, maps and filter histories; finiteness and range invariants',
    'C16': 'generated maps and scans; exhaustive comparison with every candidate of the window',
    'C17': 'generated maps and scans against the weighted covariance computed from scores of all candidates',
    'C18': 'generated scan lists and histories, differential against an independently built map',
    'C19': 'rendering histories; containment and differential against a fresh renderer, AddressSanitizer',
    'C20': 'generated scans; single-ray path oracle, counting oracle over rays, permutation relation',
    'C21': 'round trip of generated graphs through saved files',
    'C22': 'generated graphs against brute force',
    'C23': 'generated graphs against the expected markers',
    'C24': 'generated laser messages, mountings and motions against a projection model; odometry-frame relation',
    'C25': 'node histories in virtual time against a dead-reckoning model',
    'C26': 'node histories in virtual time with invariants on the saved graph',
    'C27': 'node histories in virtual time; composition oracle on broadcast transforms',
    'C28': 'node histories in virtual time against a state model',
    'C29': 'node histories in virtual time; differential against a node started with the loaded map',
    'C30': 'generated file names and service delays (Hypothesis) against a recording service',
    'C31': 'node histories in virtual time against a model of the candidate search; invariants on saved constraints',
    'C32': 'node histories with storage faults injected at every operation, compared with the graph before',
    'C33': 'node histories in virtual time with slow matches and transforms, under ThreadSanitizer, which is not told of the order in which the threads were run',
    'C34': 'node histories in virtual time; differential between published and independently rendered saved map',
    'C35': 'node histories in virtual time; distribution of the published cloud against the configured model',
    'C36': 'simulated buildings, drives, laser and odometry errors; estimate, stored map and published map against the simulated truth',
    'C37': 'simulated buildings, drives, laser and odometry errors; estimate against the simulated truth',
    'C38': 'simulated buildings and drives with generated matcher parameters; corrections against a matcher of the harness that has them; generated delays of transforms in virtual time',
    'C39': 'node histories in virtual time with generated ends, interruptions and neighbours; AddressSanitizer, and differential against a node alone in its process',
    'C41': 'node histories with generated malformed input, against the same histories without it',
    'C40': 'repeated node histories in virtual time; allocated bytes after each repetition',
}
NOTE = ('Held on all generated cases of a run (counts in the evidence file), not a proof. Trusts the ROS stand-ins in '
        '/verif/stubs and the oracle in /verif/props; tolerances are those of double rounding unless the design says otherwise.')
NOT = {
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    have = i in check.SPEC and os.path.exists(os.path.join(HERE, 'props', check.SPEC[i][0] + '.cpp'))
    have = have and 'PBT_TEST(%s,' % i in open(os.path.join(HERE, 'props', check.SPEC[i][0] + '.cpp')).read()
    if i == 'C30':
        have = os.path.exists(os.path.join(HERE, 'props', 'scripts_check.py'))
    if not have:
        na.append({'property': i, 'reason': NOT.get(i, 'No check yet.')})
        continue
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i,
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                   'technique': TECH + ORACLE[i], 'level': 'exploration', 'level_note': NOTE})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
     'hooks': {'guard': 'NDT_2D_VERIF', 'enable': 'no hooks: the checks compile the sources of /repo unmodified', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'python3 check.py ID --replay FILE runs one saved case again.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', [x['property'] for x in na])
