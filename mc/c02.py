"""Policy combining algorithms and nested policy sets."""
import itertools

from mc import build, spec
from mc.core import Mismatch
from mc.c01 import (R0, TE, TF, TM, TRUE, FAIL2, cond_driven, driven_request)
from mc.pdpcheck import Requests, base, edges, run_policy, shard
from mc.spec import *


def pol(pid, eff='P', t=None, cond=None, alg='deny-overrides'):
    return Policy(pid, alg, t, (Rule('r', eff, None, cond),))


# child kinds: (name, maker)
KINDS = [
    ('P', lambda i: pol('p%d' % i, 'P')),
    ('D', lambda i: pol('p%d' % i, 'D', TM)),
    ('N', lambda i: pol('p%d' % i, 'D', TF)),
    ('Nempty', lambda i: Policy('p%d' % i, 'permit-overrides', None, ())),
    ('I', lambda i: pol('p%d' % i, 'P', None, FAIL2)),
    ('It', lambda i: pol('p%d' % i, 'D', TE, TRUE)),
    ('sP', lambda i: PolicySet('s%d' % i, 'first-applicable', TM,
                               (pol('q%d' % i, 'P'),))),
    ('sI', lambda i: PolicySet('s%d' % i, 'permit-overrides', None,
                               (pol('q%d' % i, 'D', None, FAIL2),))),
    ('sID', lambda i: PolicySet('s%d' % i, 'deny-overrides', None,
                                (pol('q%d' % i, 'P', None, FAIL2),))),
    ('sNempty', lambda i: PolicySet('s%d' % i, 'deny-overrides', None, ())),
    ('sIt', lambda i: PolicySet('s%d' % i, 'deny-overrides', TE,
                                (pol('q%d' % i, 'P'),))),
    ('sN', lambda i: PolicySet('s%d' % i, 'permit-overrides', TF,
                               (pol('q%d' % i, 'P'),))),
]


def kinds(ctx, job):
    cache = Requests()
    n = 4 if ctx.thorough else 3
    styles = itertools.cycle(build.STYLES)
    for l in shard((l for k in range(n + 1)
                    for l in itertools.product(range(len(KINDS)), repeat=k)), job):
        for alg in ALGS:
            p = PolicySet('top', alg, None, tuple(KINDS[j][1](i)
                                                  for i, j in enumerate(l)))
            names = ' '.join(KINDS[j][0] for j in l)
            ctx.sample(dict(alg=alg, children=names,
                            allowed=sorted(decide(p, R0))))
            ctx.case('%s|%s' % (alg, names), run_policy, ctx, p, [R0], cache,
                     ('x', 'o'), next(styles))


def driven(ctx, job):
    cache = Requests()
    ns = (1, 2, 3, 4, 5) if ctx.thorough else (1, 2, 3, 4)
    pols = [(n, alg, eff) for n in ns for alg in ALGS
            for eff in itertools.product('PD', repeat=n)]
    for n, alg, eff in shard(pols, job):
        p = PolicySet('top', alg, None, tuple(
            pol('p%d' % i, e, None, cond_driven(i)) for i, e in enumerate(eff)))
        reqs = [driven_request(v)
                for v in itertools.product(('yes', 'no', 'E'), repeat=n)]
        ctx.case('%s|%s' % (alg, ''.join(eff)), run_policy, ctx, p, reqs, cache)


FOUR = 'PDNI'


def shared(ctx, job):
    """Every list of <=6 children over the 4 outcomes, as Policy or PolicySet
    objects shared between the policy sets."""
    L = build.lib()
    mk = {'P': lambda i: pol('a', 'P'), 'D': lambda i: pol('b', 'D'),
          'N': lambda i: pol('c', 'P', TF), 'I': lambda i: pol('d', 'P', TE)}
    objs = [build.o_policy(mk[k](0)) for k in FOUR]
    sets = [build.o_policy(PolicySet('s' + k, 'permit-overrides', None,
                                     (mk[k](0),))) for k in FOUR]
    ro = build.o_request(R0)
    pss = {}
    for alg in ALGS:
        pss[alg] = L.PolicySet()
        pss[alg].policySetId = 'top'
        pss[alg].policyCombiningAlgId = POLICY_ALG + alg

    def one(alg, l, flip):
        ps = pss[alg]
        del ps.policies[:]
        ps.policies.extend([(sets if (i + flip) % 2 else objs)[k]
                            for i, k in enumerate(l)])
        want = combine_policies(alg, [FOUR[k] for k in l])
        got = build.CODE[str(ps.evaluate(ro))]
        ctx.outcome(got)
        ctx.state()
        ctx.step(len(l))
        if got != want:
            raise Mismatch('%s over %r' % (alg, [FOUR[k] for k in l]), want, got)
    n = 7 if ctx.thorough else 6
    for l in shard((l for k in range(n + 1)
                    for l in itertools.product(range(4), repeat=k)), job):
        for alg in ALGS:
            for flip in (0, 1):
                ctx.case('%s|%s|%d' % (alg, ''.join(FOUR[k] for k in l), flip),
                         one, alg, l, flip)


def tree(ctx, job):
    """Two-level trees: outer algorithm x two inner sets (algorithm, target,
    two children driven by the request)."""
    cache = Requests()
    inner = [(alg, t, eff) for alg in ALGS for t in (None, TM, TF, TE)
             for eff in ('PD', 'DP', 'PP', 'DD')]
    if not ctx.thorough:
        second = [i for i in inner if i[1] in (None, TE) and i[2] in ('PD', 'DP')]
    else:
        second = inner
    reqs = [driven_request(v)
            for v in itertools.product(('yes', 'no', 'E'), repeat=3)]
    tn = {None: '-', TM: 'T', TF: 'F', TE: 'E'}
    for (a1, t1, e1), (a2, t2, e2) in shard(itertools.product(inner, second), job):
        for outer in ALGS:
            p = PolicySet('top', outer, None, (
                PolicySet('s1', a1, t1, (
                    pol('p0', e1[0], None, cond_driven(0)),
                    pol('p1', e1[1], None, cond_driven(1)))),
                PolicySet('s2', a2, t2, (
                    pol('p2', e2[0], None, cond_driven(2)),
                    pol('p3', e2[1], None, cond_driven(1))))))
            ctx.case('|'.join((outer, a1, tn[t1], e1, a2, tn[t2], e2)),
                     run_policy, ctx, p, reqs, cache, ('o',), build.PLAIN,
                     None, None, 1)


def deep(ctx, job):
    """Chains of nested sets, a target outcome at every level."""
    cache = Requests()
    depth = 5 if ctx.thorough else 4
    tn = {None: '-', TF: 'F', TE: 'E'}
    for n in range(1, depth + 1):
        for ts in shard(itertools.product((None, TF, TE), repeat=n), job):
            for algs in itertools.product(ALGS, repeat=min(n, 3)):
                for eff in 'PD':
                    p = pol('leaf', eff, None, cond_driven(0))
                    for i, t in enumerate(ts):
                        p = PolicySet('s%d' % i, algs[i % len(algs)], t,
                                      (p, pol('n%d' % i, 'D', TF)))
                    ctx.case('|'.join((''.join(tn[t] for t in ts),
                                       ','.join(algs), eff)), run_policy, ctx, p,
                             [driven_request([v]) for v in ('yes', 'no', 'E')],
                             cache, ('x',), build.PLAIN, None, None, 1)


def chain(ctx, job):
    """Long chains of nested sets: the leaf decides, or the target of one set at
    any level."""
    cache = Requests()
    items = [(n, at, t) for n in (8, 12, 20, 30) for at in range(n)
             for t in (TF, TE)]
    items += [(n, 0, None) for n in (6, 8, 12, 20, 30, 40)]
    for k, (n, at, t) in enumerate(shard(items, job)):
        for alg in ALGS:
            for eff in 'PD':
                p = pol('leaf', eff, None, cond_driven(0))
                for i in range(n):
                    p = PolicySet('s%d' % i, ALGS[(ALGS.index(alg) + i * (
                        k % 3)) % 3], t if i == at else None,
                        (p, pol('n%d' % i, 'D', TF)))
                ctx.case('%d|%d|%s|%s|%s' % (n, at, t and t is TF, alg, eff),
                         run_policy, ctx, p,
                         [driven_request([v]) for v in ('yes', 'no', 'E')],
                         cache, ('x', 'o'), build.PLAIN, None, None, 1)


def long(ctx, job):
    cache = Requests()
    mk = {'P': lambda i: pol('p%d' % i, 'P'), 'D': lambda i: pol('p%d' % i, 'D'),
          'N': lambda i: pol('p%d' % i, 'P', TF),
          'I': lambda i: pol('p%d' % i, 'P', TE)}
    items = [(n, ((pos, k),)) for n in (8, 20, 50) for pos in range(n)
             for k in 'PDI']
    for n in (130, 300, 1100) if not ctx.thorough else (
            130, 300, 600, 1100, 2100, 4200):
        items += [(n, ((pos, k),)) for pos in edges(n) for k in 'PDI']
    for n in (9,) if not ctx.thorough else (9, 16):
        for i, j in itertools.combinations(range(n), 2):
            for a, b in itertools.product('PDI', repeat=2):
                items.append((n, ((i, a), (j, b))))
    for n, put in shard(items, job):
        l = ['N'] * n
        for pos, k in put:
            l[pos] = k
        for alg in ALGS:
            p = PolicySet('top', alg, None,
                          tuple(mk[k](i) for i, k in enumerate(l)))
            ctx.case('%s|%d|%r' % (alg, n, put), run_policy, ctx, p, [R0],
                     cache, ('o',), build.PLAIN, None, None, 1)


def run(ctx):
    globals()[base(ctx.job)](ctx, ctx.job)
