#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present."""
import json, os, importlib, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
TODO = 'Applicable to this family; its check is still being built, so the property is not claimed yet.'
checks, na = [], []
for p in props:
    i = p['id']
    f = here + '/checks/%s.py' % i.lower()
    if not os.path.exists(f):
        na.append(dict(property=i, reason=TODO)); continue
    m = importlib.import_module('checks.' + i.lower())
    checks.append(dict(property=i, quick_cmd='python3-vt run.py %s quick' % i, thorough_cmd='python3-vt run.py %s thorough' % i,
                       technique=getattr(m, 'TECHNIQUE', 'property-based testing (Hypothesis) against an independent reference model'),
                       level=m.LEVEL, level_note=getattr(m, 'NOTE', 'Bounded random and directed search; assumes the Python reference model of the format and the stock compression libraries are right.')))
json.dump(dict(version=1, setup_cmd='python3-vt -m kit.build asan faults tinyfaults pattern fast tiny tsan tinytsan fuzz tinyfuzz',
               hooks=dict(guard='DRPM_VERIF_SMALL_BLOCKS', enable='kit/build.py compiles the variant "tiny" with -DDRPM_VERIF_SMALL_BLOCKS', source_commits=['5e4da8b']), checks=checks, not_applicable=na,
               notes='One hook in /repo (small block limits); all harnesses use the public API of the sources compiled from /repo/src (see kit/build.py). '
                     'VERIF_SEED seeds every random choice; replays are written to replays/.'), open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
