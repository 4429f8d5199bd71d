"""Applicability: effect, target and condition of rules, targets of policies
and policy sets, non-boolean conditions."""
import itertools

from mc import build, custom, spec
from mc.c01 import (A, R0, TE, TF, TM, TRUE, FALSE, FAIL, FAIL2, cond_driven,
                    driven_request)
from mc.core import Mismatch, check
from mc.pdpcheck import Requests, base, run_policy, shard
from mc.spec import *

EMPTY = target()
TARGETS = [('-', None), ('0', EMPTY), ('T', TM), ('F', TF), ('E', TE)]
CONDS = [('-', None), ('T', TRUE), ('F', FALSE), ('E', FAIL2)]


def matrix(ctx, job):
    """PolicySet target x Policy target x Rule target x condition x effect x
    algorithms."""
    cache = Requests()
    styles = itertools.cycle(build.STYLES)
    for (sn, st), (pn, pt), (rn, rt), (cn, c) in shard(
            itertools.product(TARGETS, TARGETS, TARGETS, CONDS), job):
        for eff in 'PD':
            rule = Rule('r', eff, rt, c)
            for alg in ALGS:
                ctx.case('P|%s%s%s|%s|%s|%s' % (sn, pn, rn, cn, eff, alg),
                         run_policy, ctx,
                         PolicySet('s', alg, st, (Policy('p', alg, pt, (rule,)),)),
                         [R0], cache, ('x', 'o'), next(styles))


def section(ctx, job):
    """The same attribute driven match used as target of rule, policy and set,
    in every section, over request sequences on one PDP."""
    cache = Requests()
    reqs = {}
    for cat in SECTIONS:
        reqs[cat] = [request(**{cat: [attr(cat, v)]}) for v in ('a', 'b', 'c')]
        reqs[cat].append(request())
    for cat in shard(SECTIONS, job):
        t = lambda v, mbp=False: target(**{cat: [(simple_match(cat, v, mbp=mbp),)]})
        opts = [None, t('a'), t('b'), t('a', True)]
        for ts, tp, tr, tr2 in itertools.product(opts, repeat=4):
            for alg in ALGS:
                p = PolicySet('s', alg, ts, (Policy('p', alg, tp, (
                    Rule('r1', 'P', tr, None), Rule('r2', 'D', tr2, None))),))
                ctx.case('%s|%s|%s' % (cat, alg, ','.join(
                    str(opts.index(x)) for x in (ts, tp, tr, tr2))),
                    run_policy, ctx, p, reqs[cat], cache, ('x',))


def odd(ctx, job):
    """Conditions, match functions and arguments yielding non boolean values."""
    L = build.lib()
    bv = lambda t, v: build.o_value(Val(t, v))

    class Truthy(object):
        def __bool__(self):
            return True

    class Falsy(object):
        def __bool__(self):
            return False

    class Broken(object):
        def __bool__(self):
            raise ValueError('no truth value')

    class Int(int):
        pass
    values = [('True', lambda: True, True), ('False', lambda: False, False),
              ('bTrue', lambda: bv('boolean', True), Val('boolean', True)),
              ('bFalse', lambda: bv('boolean', False), Val('boolean', False))]
    for n, f in [
            ('str-true', lambda: 'true'), ('str-True', lambda: 'True'),
            ('str-empty', lambda: ''), ('int1', lambda: 1), ('int0', lambda: 0),
            ('float1', lambda: 1.0), ('none', lambda: None),
            ('list', lambda: [True]), ('emptylist', lambda: []),
            ('tuple', lambda: (True,)), ('truthy', Truthy), ('falsy', Falsy),
            ('broken', Broken), ('Int', lambda: Int(1)),
            ('sTrue', lambda: bv('string', 'true')),
            ('s1', lambda: bv('integer', 1)), ('s0', lambda: bv('integer', 0)),
            ('sempty', lambda: bv('string', '')),
            ('iTrue', lambda: bv('integer', True)),
            ('iFalse', lambda: bv('integer', False)),
            ('dTrue', lambda: bv('hexBinary', True)),
            ('decision', lambda: L.Decision.PERMIT),
            ('effect', lambda: L.Effect.PERMIT),
            ('notimpl', lambda: NotImplemented), ('class', lambda: bool),
            ('Permit', lambda: 'Permit')]:
        values.append((n, f, None))
    cache = Requests()
    for n, f, model in values:
        # what the model thinks a function call yields: None is 'not boolean'
        m = (lambda *a, **k: model) if model is not None else (
            lambda *a: Val('string', 'not boolean'))
        fid = custom.register('odd:' + n, lambda *a, **k: f(), m)
        nat = model if isinstance(model, bool) else None
        for eff, alg in itertools.product('PD', ALGS):
            for rt in (None, TM, TF, TE):
                p = Policy('p', alg, None, (Rule('r', eff, rt, Apply(fid, ())),))
                ctx.case('cond|%s|%s|%s|%d' % (n, eff, alg, [
                    None, TM, TF, TE].index(rt)), run_policy, ctx, p, [R0], cache)
            p = Policy('p', alg, None, (
                Rule('r', eff, None, Apply(F1 + 'not', (Apply(fid, ()),))),))
            if not isinstance(model, Val):     # not() of a boolean value
                ctx.case('not|%s|%s|%s' % (n, eff, alg), run_policy, ctx, p,
                         [R0], cache)
                p = Policy('p', alg, None, (
                    Rule('r', eff, None, Apply(F1 + 'and', (
                        TRUE, Apply(fid, ())))),))
                ctx.case('and|%s|%s|%s' % (n, eff, alg), run_policy, ctx, p,
                         [R0], cache)
            # as the match function of a rule target and of a policy target
            if not isinstance(model, Val):
                t = target(subject=[(Match(fid, val('alice'), des('subject')),)])
                p = Policy('p', alg, None, (Rule('r', eff, t, None),))
                ctx.case('rmatch|%s|%s|%s' % (n, eff, alg), run_policy, ctx, p,
                         [R0], cache)
                p = Policy('p', alg, t, (Rule('r', eff, None, None),))
                ctx.case('pmatch|%s|%s|%s' % (n, eff, alg), run_policy, ctx, p,
                         [R0], cache)

    # expressions other than Apply directly below a Condition
    exprs = [('bool-true', Val('boolean', True)),
             ('bool-false', Val('boolean', False)),
             ('string', val('true')), ('empty', val('')),
             ('int', Val('integer', 1)),
             ('des', des('subject')), ('desboolean', des('subject', A, 'boolean')),
             ('desmissing', des('subject', A)),
             ('desmbp', des('subject', A, mbp=True)),
             ('bag', Apply(F1 + 'string-bag', (val('a'),))),
             ('emptybag', Apply(F1 + 'string-bag', ())),
             ('concat', Apply(F2 + 'string-concatenate', (val('t'), val('rue')))),
             ('one', Apply(F1 + 'boolean-one-and-only', (
                 des('subject', A, 'boolean'),)))]
    reqs = [R0] + [request([attr('subject', *v, id=A, type='boolean')])
                   for v in ([True], [False], [True, True])]
    for (n, e), eff, alg in itertools.product(exprs, 'PD', ALGS):
        p = Policy('p', alg, None, (Rule('r', eff, None, e),))
        ctx.case('expr|%s|%s|%s' % (n, eff, alg), run_policy, ctx, p, reqs,
                 cache, ('o',))


def rulelevel(ctx, job):
    """Rule objects evaluated on their own."""
    L = build.lib()
    ro = build.o_request(R0)
    for (tn, t), (cn, c), eff in itertools.product(TARGETS, CONDS, 'PD'):
        r = Rule('r', eff, t, c)

        def one():
            rule = build.o_rule(r)
            for _ in range(3):
                got = build.CODE[str(rule.evaluate(ro))]
                want = eval_rule(r, Env(R0))
                ctx.step()
                check(got in want, 'rule %r' % (r,), sorted(want), got)
        ctx.state()
        ctx.case('%s|%s|%s' % (tn, cn, eff), one)


def run(ctx):
    globals()[base(ctx.job)](ctx, ctx.job)
