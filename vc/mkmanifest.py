#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the contract files that exist"""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(ROOT, 'not_applicable.json')))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl')) if l.strip()]
# properties whose deciding contracts range over a bounded number of zones
BOUNDED = {
    'C18': ' Here the number of zones is bounded (1 to 4); within it every real-valued input is covered by proof.',
    'C19': ' Here the number of zones and blocks is bounded (up to 9 zones, four blocks, one refined); within it every real-valued input is covered by proof. '
           'Face fluxes, sound speed, gravity and sinks are proved without bound. The thread pool is replaced by direct calls.'}
BOUNDED['C21'] = ' Here the option names and the texts that are parsed are fixed examples; the option values are arbitrary.'
BOUNDED['C22'] = (' Here texts, names, sizes of arrays and trees are fixed examples; the values are arbitrary. The HDF5 library is represented by the store in '
                  'contracts/hdf5_standin.hpp; natively, for replays, it is the library itself.')
BOUNDED['C23'] = ' Here the number of zones is bounded (3 by 2); values, times, counts and marks are arbitrary. The HDF5 library is represented as in C22.'
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
        continue
    assert glob.glob(os.path.join(ROOT, 'contracts', i + '_*.cpp')), i
    checks.append(dict(
        property=i,
        quick_cmd='python3-vt vc/run.py ' + i,
        thorough_cmd='VERIF_TIER=thorough python3-vt vc/run.py ' + i,
        evidence_file='evidence/%s.json' % i,
        technique='contract-based deductive verification of the real code (VC generation from LLVM IR of /repo, discharged by exact '
                  'algebra, interval/linear arithmetic, z3 and cvc5)',
        level='other' if i in BOUNDED else 'proof',
        level_note='Every obligation generated from the current source is discharged for all inputs of the contract. double is read as '
                   'exact real arithmetic; libm functions as uninterpreted with axioms; clang-18 and the VC generator are trusted. '
                   'Items named bounded_ or sampled_ in the evidence are stand-ins with the stated bound, not counted as proved.' + BOUNDED.get(i, '')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='No hooks in /repo. vc/run.py <id> rebuilds the IR of the contracts together with /repo sources on each run.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
