#!/usr/bin/env python3
"""Regenerates MANIFEST.json from harness/plan.py."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
from plan import PLAN, NOT_APPLICABLE, HOOK_COMMITS
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in props:
    if p in PLAN:
        e = PLAN[p]
        checks.append(dict(property=p, quick_cmd='python3 check.py %s --tier quick' % p, thorough_cmd='python3 check.py %s --tier thorough' % p,
                           evidence_file='evidence/%s.json' % p, technique=e['technique'], level=e['level'], level_note=e['note']))
na = [dict(property=p, reason=r) for p, r in NOT_APPLICABLE.items()]
m = dict(version=1, setup_cmd='python3 check.py --help > /dev/null && gcc --version > /dev/null',
         hooks=dict(guard='CPUINFO_VERIF', enable='harness/build.py compiles the x86 sources with -DCPUINFO_VERIF=1', source_commits=HOOK_COMMITS),
         checks=checks, not_applicable=na,
         notes='Every check builds the explorer from the working tree of /repo and enumerates executions of the real library code in a simulated machine.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
missing = [p for p in props if p not in PLAN and p not in NOT_APPLICABLE]
print('claimed', len(checks), 'not applicable', len(na), 'missing', missing)
