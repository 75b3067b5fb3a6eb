#!/usr/bin/env python3
"""Notes what the last run of every check cost (from evidence/) in tools/cost.json, for DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + '/tools/cost.json'
c = json.load(open(p)) if os.path.exists(p) else {}
for f in glob.glob(V + '/evidence/*.json'):
    e = json.load(open(f))
    if e['tier'] == 'quick' and not e['violations']:
        v = e['coverage']
        c[e['property']] = 'quick tier about %d s on 8 cores, %d paths, %d solver queries (%d reached Z3, the others were answered by rewriting and caching)' % (round(e['wall_s']), v['paths'], v['solver_queries'], v['z3_calls'])
json.dump(c, open(p, 'w'), indent=1, sort_keys=True)
