#!/usr/bin/env python3
"""Driver: runs the jobs of one check, writes evidence/<id>.json, prints
VIOLATION / KNOWN-FINDING lines.

  run.py C01                 tier from VERIF_TIER (default quick)
  run.py C01 --tier thorough
  run.py --replay FILE       re-run exactly one recorded violation
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MC_REPO', '/repo')
PY = {'lxml': '/opt/venv/bin/python', 'etree': '/opt/venv-nolxml/bin/python'}
BUDGET = {'quick': 840, 'thorough': 6 * 3600}
TECH = None


def known_findings(prop):
    path = os.path.join(HERE, 'known_findings.txt')
    found = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) job=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                found.append((m.group(2), m.group(3), m.group(4).strip()))
    return found


def load_jobs(prop, tier):
    sys.path.insert(0, HERE)
    import importlib
    mod = importlib.import_module('mc.jobs')
    return mod.jobs(prop, tier), mod.META[prop]


def run_jobs(prop, jobs, tier, seed, scratch, only=None, parallel=8):
    env = dict(os.environ)
    env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', MC_REPO=REPO,
               PYTHONHASHSEED=str(seed % 4294967295), LC_ALL='C.UTF-8',
               HOME=scratch, TMPDIR=scratch, no_proxy='*',
               # HTTPS handlers load the certificate store for every fetch
               SSL_CERT_FILE=os.devnull, SSL_CERT_DIR=scratch)
    pending = list(enumerate(jobs))
    running, results, errors = {}, [], []
    deadline = time.time() + BUDGET[tier]
    while pending or running:
        while pending and len(running) < parallel:
            i, (mode, job) = pending.pop(0)
            d = os.path.join(scratch, 'job%d' % i)
            os.mkdir(d)
            out = os.path.join(scratch, 'out%d.json' % i)
            err = open(os.path.join(scratch, 'err%d' % i), 'w+')
            cmd = [PY[mode], os.path.join(HERE, 'mc', 'worker.py'), prop, job,
                   mode, tier, str(seed), d, out]
            if only is not None:
                cmd.append(only)
            p = subprocess.Popen(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL,
                                 stdout=err, stderr=err)
            running[p.pid] = (p, job, mode, out, err)
        time.sleep(0.02)
        for pid in list(running):
            p, job, mode, out, err = running[pid]
            if p.poll() is None:
                if time.time() > deadline:
                    p.kill()
                    p.wait()
                    errors.append('%s/%s: out of time' % (job, mode))
                    del running[pid]
                continue
            del running[pid]
            if os.path.exists(out):
                results.append(json.load(open(out)))
            else:
                err.seek(0)
                errors.append('%s/%s: exit %s\n%s' % (job, mode, p.returncode,
                                                      err.read()[-3000:]))
            err.close()
    return results, errors


def main(argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        i = argv.index('--tier')
        tier = argv[i + 1]
        del argv[i:i + 2]
    if tier not in BUDGET:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    if argv and argv[0] == '--replay':
        v = json.load(open(argv[1]))
        prop, tier, only, seed = v['property'], v['tier'], v['key'], v['seed']
        jobs, meta = [(v['mode'], v['job'])], load_jobs(prop, tier)[1]
        if only.startswith('('):
            only = None
    else:
        prop = argv[0]
        jobs, meta = load_jobs(prop, tier)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='mc-%s-' % prop)
    os.chmod(scratch, 0o755)
    try:
        results, errors = run_jobs(prop, jobs, tier, seed, scratch, only,
                                   parallel=meta.get('parallel', 8))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    known = known_findings(prop)
    violations, hit = [], []
    for r in results:
        for v in r['violations']:
            for k in known:
                if k[0] == v['job'] and k[1] == v['key']:
                    hit.append(k)
                    break
            else:
                violations.append(v)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k[2]))
        if k not in hit and only is None:
            print('note: known finding not reproduced in this run: %s' % k[2])
    wall = time.time() - t0
    if only is None:
        outcomes = {}
        for r in results:
            for o, n in r['outcomes'].items():
                outcomes[o] = outcomes.get(o, 0) + n
        samples = []
        for r in results:
            samples.extend(r['samples'][:2])
        coverage = dict(
            states=sum(r['states'] for r in results),
            transitions=sum(r['transitions'] for r in results),
            traces_validated_against_impl=sum(r['traces'] for r in results),
            samples=samples[:12],
            exhaustive=not errors and not violations,
            bounds=meta['bounds'][tier] if isinstance(meta['bounds'], dict)
            else meta['bounds'],
            jobs=[dict(job=r['job'], backend=r['mode'], states=r['states'],
                       transitions=r['transitions'], traces=r['traces'],
                       distinct_outcomes=r['n_outcomes'],
                       wall_s=round(r['wall'], 2), **r['notes'])
                  for r in results],
            outcomes=dict(sorted(outcomes.items(), key=lambda x: -x[1])[:40]))
        evidence = dict(property=prop, tier=tier, seed=seed,
                        level='model_checking', coverage=coverage,
                        assumptions=meta.get('assumptions', []),
                        wall_s=round(wall, 2), violations=len(violations))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        path = os.path.join(HERE, 'evidence', prop + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
        os.rename(path + '.tmp', path)
        print('%s %s: states=%d transitions=%d traces=%d distinct outcomes=%d '
              'wall=%.1fs' % (prop, tier, coverage['states'],
                              coverage['transitions'],
                              coverage['traces_validated_against_impl'],
                              len(outcomes), wall))
    if violations:
        rdir = os.path.join(HERE, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        for v in violations[:5]:
            h = hashlib.sha1((v['job'] + v['mode'] + v['key']).encode()).hexdigest()
            path = os.path.join(rdir, '%s-%s.json' % (prop, h[:10]))
            json.dump(v, open(path, 'w'), indent=1)
            print('%s [%s/%s] %s: %s expected=%r got=%r' % (
                prop, v['job'], v['mode'], v['key'], v['what'], v['expected'],
                v['got']))
            if v['traceback']:
                print(v['traceback'][-800:])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        for e in errors:
            print('ERROR', e)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
