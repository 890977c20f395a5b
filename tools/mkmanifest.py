#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from jobs.py and properties.jsonl (run by hand, output committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import jobs
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = getattr(jobs, 'NOT_APPLICABLE', {})
checks, na = [], []
for p in props:
    i = p['id']
    if i in jobs.JOBS:
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
            technique='symbolic execution of the LLVM IR of the real code, path conditions and assertions decided by z3, counterexamples replayed natively',
            level='model_checking',
            level_note='Holds for every input within the bounds: %s. Trusted: clang front end, symex/ (engine), z3, the libc models in models/libc.c (sampled paths are re-run against the real libc and compared). The evidence file names jobs that did not complete within the time budget.' % jobs.JOBS[i]['bounds']))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
