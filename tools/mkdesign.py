#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
from mc import jobs
import design_text as T

props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
props.sort(key=lambda p: p['id'])
out = [T.INTRO % {'n': len(props)}, '## Properties\n']
cost = {}
if os.path.exists(HERE + '/tools/cost.json'):
    cost = json.load(open(HERE + '/tools/cost.json'))
for p in props:
    f = '%s/evidence/%s.json' % (HERE, p['id'])
    if os.path.exists(f):
        e = json.load(open(f))
        js = e['coverage']['jobs']
        cost.setdefault(p['id'], {})[e['tier']] = [
            sum(j[k] for j in js) for k in ('states', 'transitions', 'traces')] + [
            round(e.get('wall_s', 0))]
json.dump(cost, open(HERE + '/tools/cost.json', 'w'), indent=1, sort_keys=True)
for p in props:
    m = jobs.META[p['id']]
    out.append('### %s %s\n\n%s\n' % (p['id'], p['title'], p['statement']))
    out.append(T.PROPS[p['id']] + '\n')
    for tier in ('quick', 'thorough'):
        c = cost.get(p['id'], {}).get(tier)
        out.append('* %s bounds: %s.%s' % (
            tier, m['bounds'][tier],
            ' Last run: %d states, %d transitions, %d traces in %d s.' % tuple(c)
            if c else ''))
    out.append('* assumptions: %s\n' % '; '.join(m['assumptions'])
               if m['assumptions'] else '')
out.append(T.UNSPEC)
out.append('## Planted changes\n\nEach is in `seeded/<id>/`, breaks the property '
           'named while the stable tests pass, and was\nrun against the check of '
           'that property (quick tier); `also` lists other checks tried that '
           'caught it.\n')
out.append('| change | what it breaks | caught by |\n|---|---|---|')
res = json.load(open(HERE + '/tools/caught.json'))
for d in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (HERE, d)))
    out.append('| %s | %s | %s |' % (d, m['what_it_breaks'].replace('|', '/'),
                                     res.get(d, '?')))
open(HERE + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
