#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from mc import jobs                                            # noqa

PROPS = []
TECH = 'explicit-state model checking'


def prop(id, title, statement, over, text, why, files, mech, state=(),
         observe=(), level_note='', technique=None):
    assert len(title) <= 80, title
    p = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        p['anchors']['state'] = [dict(name=n, meaning=m, where=w)
                                 for n, m, w in state]
    if observe:
        p['anchors']['observe_at'] = list(observe)
    p['anchors']['hook_needed'] = None
    PROPS.append((p, level_note, technique))


X = 'ndg/xacml/'
C = X + 'core/'
P = X + 'parsers/etree/'

exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, _, _ in PROPS:
            if p['id'] in jobs.JOBS:
                f.write(json.dumps(p) + '\n')
    checks = []
    for p, note, tech in PROPS:
        if p['id'] not in jobs.JOBS:
            continue
        checks.append(dict(
            property=p['id'], quick_cmd='python3 run.py %s' % p['id'],
            thorough_cmd='python3 run.py %s --tier thorough' % p['id'],
            technique=tech or 'explicit-state enumeration of inputs and '
            'histories on the real code against a reference model',
            level='model_checking', level_note=note or
            jobs.META[p['id']]['bounds']['quick']))
    missing = sorted(set(jobs.JOBS) - set(p['id'] for p, _, _ in PROPS))
    assert not missing, missing
    m = dict(version=1, setup_cmd='python3 tools/setup_check.py', checks=checks,
             not_applicable=NOT_APPLICABLE)
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
