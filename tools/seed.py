#!/usr/bin/env python3
"""Validate planted bugs (seeded/<id>/) in a scratch copy of /repo: applies,
builds, stable tests pass, demo fails with the patch and passes without; then
run the property's check on the patched copy.

  seed.py make FILE.py     FILE defines BUGS = [dict(id, property, needs,
                           what_it_breaks, edits=[(file, old, new)], demo)]
  seed.py test ID...       validate (tests, demo)
  seed.py check ID...|all  run the check of its property (prints caught / MISSED)
"""
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           LC_ALL='C.UTF-8', VERIF_SEED='1', VERIF_TIER='quick')
VENVS = {'lxml': '/opt/venv', 'etree': '/opt/venv-nolxml'}
DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" LC_ALL=C.UTF-8
here="$(cd "$(dirname "$0")" && pwd)"
for py in /opt/venv/bin/python /opt/venv-nolxml/bin/python; do
    timeout 120 "$py" -W ignore "$here/demo.py" || exit 1
done
'''


def copy():
    d = tempfile.mkdtemp(prefix='seed-')
    subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
    return d


def make(spec):
    d = copy()
    try:
        r = d + '/repo'
        for f, old, new in spec['edits']:
            p = os.path.join(r, f)
            s = open(p, encoding='utf-8').read()
            if s.count(old) != 1:
                return '%s: %s matches %d times in %s' % (
                    spec['id'], old[:50], s.count(old), f)
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', r, 'diff'])
        out = os.path.join(SEEDED, spec['id'])
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'wb').write(diff)
        open(out + '/demo.sh', 'w').write(DEMO)
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.py', 'w').write(spec['demo'])
        json.dump(dict(property=spec['property'], needs=spec['needs'],
                       what_it_breaks=spec['what_it_breaks']),
                  open(out + '/meta.json', 'w'), indent=1)
    finally:
        shutil.rmtree(d)
    return test(spec['id'])


def run(cmd, cwd, **kw):
    p = subprocess.run(cmd, cwd=cwd, env=dict(ENV, **kw), text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout


def stable(r):
    """Stable tests that don't pass in tree r."""
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    passed = set()
    rep = tempfile.mkdtemp(prefix='rep-')
    try:
        for pre, v in VENVS.items():
            run([v + '/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                 '--timeout=300', '--continue-on-collection-errors', '-o',
                 'junit_family=xunit2', '--junit-prefix=' + pre,
                 '--junitxml=%s/%s.xml' % (rep, pre), 'ndg'], r)
        run(['python3', '/opt/vp/results.py', rep + '/out.json',
             'junit:%s/*.xml' % rep], r)
        passed = set(json.load(open(rep + '/out.json'))['passed'])
    finally:
        shutil.rmtree(rep)
    return sorted(base - passed)


def test(id):
    s = os.path.join(SEEDED, id)
    d = copy()
    msg = []
    try:
        r = d + '/repo'
        rc, out = run([s + '/demo.sh'], r)
        if rc:
            msg.append('demo fails on the clean tree: ' + out[-700:])
        rc, out = run(['git', 'apply', s + '/patch.diff'], r)
        if rc:
            return '%s: patch does not apply %s' % (id, out)
        rc, out = run([s + '/demo.sh'], r)
        if rc == 0:
            msg.append('demo passes with the patch')
        m = stable(r)
        if m:
            msg.append('stable tests fail: %s' % m[:5])
        # only lines of the original repository are changed
        fresh = subprocess.check_output(['git', '-C', '/repo', 'rev-list',
                                         '--max-parents=0', 'HEAD'], text=True
                                        ).split()[0]
        diff = open(s + '/patch.diff').read()
        files = re.findall(r'^--- a/(.*)$', diff, re.M)
        for f in files:
            blame = subprocess.check_output(
                ['git', '-C', '/repo', 'blame', '-s', '-l', '--root', f],
                text=True).splitlines()
            own = {i + 1 for i, b in enumerate(blame)
                   if not b.lstrip('^').startswith(fresh[:30])}
            hunkfile = diff.split('--- a/' + f)[1].split('--- a/')[0]
            n = 0
            for line in hunkfile.splitlines():
                h = re.match(r'@@ -(\d+)', line)
                if h:
                    n = int(h.group(1))
                elif n and line.startswith('-'):
                    if n in own:
                        msg.append('changes own line %s:%d' % (f, n))
                    n += 1
                elif n and not line.startswith('+'):
                    n += 1
    finally:
        shutil.rmtree(d)
    return '%s: %s' % (id, '; '.join(msg) or 'ok')


def check(id, props=None):
    s = os.path.join(SEEDED, id)
    props = props or [json.load(open(s + '/meta.json'))['property']]
    d = copy()
    out = []
    try:
        r = d + '/repo'
        rc, o = run(['git', 'apply', s + '/patch.diff'], r)
        if rc:
            return '%s: patch does not apply' % id
        # a copy of verif so that evidence is not overwritten
        v = d + '/verif'
        subprocess.check_call(['rsync', '-a', '--exclude=seeded', '--exclude=.git',
                               '--exclude=evidence', HERE + '/', v]
                              if shutil.which('rsync') else
                              ['cp', '-a', HERE, v])
        for prop in props:
            rc, o = run(['python3', 'run.py', prop], v, MC_REPO=r)
            hit = rc == 1 and 'VIOLATION property=%s ' % prop in o
            out.append('%s %s' % (prop, 'caught' if hit else
                                  'MISSED (exit %d) %s' % (rc, o[-300:] if rc not in (0, 1) else '')))
    finally:
        shutil.rmtree(d)
    remember(id, ', '.join(o.split(' (')[0] for o in out))
    return '%s: %s' % (id, ', '.join(out))


def remember(id, text):
    f = HERE + '/tools/caught.json'
    with open(f + '.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        res = json.load(open(f)) if os.path.exists(f) else {}
        res[id] = text.replace(' caught', '').replace('MISSED', '(missed)')
        json.dump(res, open(f, 'w'), indent=1, sort_keys=True)


def main(argv):
    ids = argv[1:]
    if argv[0] == 'make':
        ns = {}
        exec(open(argv[1]).read(), ns)
        with ThreadPoolExecutor(6) as ex:
            for r in ex.map(make, ns['BUGS']):
                print(r, flush=True)
        return
    props = None
    if argv[0] == 'cross':              # every check on every bug
        sys.path.insert(0, HERE)
        from mc import jobs
        props = sorted(jobs.JOBS)
    if ids == ['all'] or not ids:
        ids = sorted(os.listdir(SEEDED))
    if argv[0] == 'test':
        with ThreadPoolExecutor(6) as ex:
            for r in ex.map(test, ids):
                print(r, flush=True)
    else:
        for i in ids:
            print(check(i, props), flush=True)


if __name__ == '__main__':
    main(sys.argv[1:])
