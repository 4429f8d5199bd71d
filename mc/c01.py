"""Rule combining algorithms."""
import itertools

from mc import build, spec
from mc.core import Mismatch
from mc.pdpcheck import Requests, base, edges, run_policy, shard
from mc.spec import *

A = 'urn:mc:a'


def cond_driven(i):
    """True / False / failing according to attribute i of the request."""
    return Apply(F1 + 'string-equal', (
        Apply(F1 + 'string-one-and-only',
              (des('action', '%s:%d' % (A, i)),)), val('yes')))


def driven_request(vec):
    return request([attr('subject', 'alice')], [attr('resource', 'x')],
                   [attr('action', v, id='%s:%d' % (A, i))
                    for i, v in enumerate(vec) if v != 'E'])


TM = target(subject=[(simple_match('subject', 'alice'),)])
TF = target(resource=[(simple_match('resource', 'other'),)])
TE = target(action=[(Match(F1 + 'string-equal', val('x'),
                           des('action', 'urn:mc:missing', mbp=True)),)])
TRUE = Apply(F1 + 'and', ())
FALSE = Apply(F1 + 'not', (TRUE,))
FAIL = Apply(F1 + 'string-one-and-only', (des('action', 'urn:mc:missing'),))
FAIL2 = Apply(F1 + 'not', (Apply(F1 + 'string-equal', (FAIL, val('x'))),))
R0 = request([attr('subject', 'alice')], [attr('resource', 'x')],
             [attr('action', 'read')])

KINDS = [(e, t, c) for e in 'PD' for t, c in (
    (None, None), (TM, TRUE), (TF, None), (None, FALSE), (TE, None),
    (TM, FAIL2))]
SHORT = ['%s%s' % (e, n) for e in 'PD' for n in (
    '', '+tc', '-t', '-c', '!t', '!c')]


def mk(kinds):
    return tuple(Rule('r%d' % i, e, t, c) for i, (e, t, c) in enumerate(kinds))


def kinds(ctx, job):
    """Every list of at most 3 (thorough 4) rules over 12 kinds of rule."""
    cache = Requests()
    n = 4 if ctx.thorough else 3
    lists = (l for k in range(n + 1)
             for l in itertools.product(range(len(KINDS)), repeat=k))
    styles = itertools.cycle(build.STYLES)
    for l in shard(lists, job):
        for alg in ALGS:
            p = Policy('p', alg, None, mk([KINDS[i] for i in l]))
            ctx.sample(dict(alg=alg, rules=[SHORT[i] for i in l],
                            allowed=sorted(spec.decide(p, R0))))
            ctx.case('%s|%s' % (alg, ' '.join(SHORT[i] for i in l)),
                     run_policy, ctx, p, [R0], cache, ('x', 'o'), next(styles))


def driven(ctx, job):
    """n rules whose outcomes the request selects: 3^n requests per policy."""
    cache = Requests()
    ns = (1, 2, 3, 4, 5, 6) if ctx.thorough else (1, 2, 3, 4, 5)
    pols = [(n, alg, eff) for n in ns for alg in ALGS
            for eff in itertools.product('PD', repeat=n)]
    for n, alg, eff in shard(pols, job):
        p = Policy('p', alg, None, tuple(
            Rule('r%d' % i, e, None, cond_driven(i)) for i, e in enumerate(eff)))
        reqs = [driven_request(v)
                for v in itertools.product(('yes', 'no', 'E'), repeat=n)]
        ctx.case('%s|%s' % (alg, ''.join(eff)), run_policy, ctx, p, reqs,
                 cache, ('x',) if n > 4 else ('x', 'o'))


FIVE = [('P', None, None), ('D', None, None), ('P', TF, None),
        ('P', TE, None), ('D', TE, None)]
FIVE_N = ['P', 'D', 'N', 'Ip', 'Id']
FIVE_D = [('P', 'P'), ('D', 'D'), ('N', 'P'), ('I', 'P'), ('I', 'D')]


def shared(ctx, job):
    """Every list of at most 6 (thorough 7) rules over the 5 rule outcomes,
    rule objects shared between the policies."""
    L = build.lib()
    rules = [build.o_rule(r) for r in mk(FIVE)]
    ro = build.o_request(R0)
    n = 7 if ctx.thorough else 6
    pols = {}
    for alg in ALGS:
        pols[alg] = L.Policy()
        pols[alg].policyId = 'p'
        pols[alg].ruleCombiningAlgId = RULE_ALG + alg

    def one(alg, l):
        po = pols[alg]
        del po.rules[:]
        po.rules.extend([rules[i] for i in l])
        want = combine_rules(alg, [FIVE_D[i] for i in l])
        got = build.CODE[str(po.evaluate(ro))]
        ctx.outcome(got)
        ctx.state()
        ctx.step(len(l))
        if got != want:
            raise Mismatch('%s over %r' % (alg, [FIVE_N[i] for i in l]), want,
                           got)
    for l in shard((l for k in range(n + 1)
                    for l in itertools.product(range(5), repeat=k)), job):
        for alg in ALGS:
            ctx.case('%s|%s' % (alg, ' '.join(FIVE_N[i] for i in l)), one, alg, l)


def long(ctx, job):
    """Long lists: each one or two applicable rules at every position."""
    cache = Requests()
    N = ('P', TF, None)
    items = []
    for n in (8, 12, 25, 60):
        for pos in range(n):
            for k in (0, 1, 3, 4):
                items.append((n, ((pos, k),)))
    for n in (130, 300, 1100) if not ctx.thorough else (
            130, 300, 600, 1100, 2100, 4200):
        for pos in edges(n):
            for k in (0, 1, 3, 4):
                items.append((n, ((pos, k),)))
    for n in (9, 14) if not ctx.thorough else (9, 14, 20):
        for i, j in itertools.combinations(range(n), 2):
            for a, b in itertools.product((0, 1, 3, 4), repeat=2):
                items.append((n, ((i, a), (j, b))))
    for n, put in shard(items, job):
        l = [N] * n
        for pos, k in put:
            l[pos] = FIVE[k]
        for alg in ALGS:
            p = Policy('p', alg, None, mk(l))
            ctx.case('%s|%d|%r' % (alg, n, put), run_policy, ctx, p, [R0],
                     cache, ('o',), build.PLAIN, None, None, 1)


def run(ctx):
    globals()[base(ctx.job)](ctx, ctx.job)
