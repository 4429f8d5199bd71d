"""Fail closed: whatever goes wrong while a request is evaluated, the PDP
answers, with one result, and the failure counts as Indeterminate exactly where
it occurred."""
import itertools

from mc import build, custom, spec
from mc.c01 import A, R0, TE, TF, TM, TRUE, FALSE
from mc.core import Mismatch, check
from mc.pdpcheck import Requests, base, run_policy, shard
from mc.spec import *


class Plan(object):
    """Fault plan: the set of call points (by label) at which to fail."""
    fail_at = frozenset()
    exc = None
    calls = None


def point(name, result=True):
    """A boolean function call that fails when the plan says so."""
    def impl(*args):
        Plan.calls.append(name)
        if name in Plan.fail_at:
            raise Plan.exc()
        return result

    def model(*args):
        if name in Plan.fail_at:
            raise Fail(name)
        return result
    return custom.register('c06:%s' % name, impl, model)


POINTS = None


def skeletons():
    """Policies in which every target and condition calls a distinct point."""
    n = itertools.count()
    pts = []

    def pt(result=True):
        name = 'pt%d' % next(n)
        pts.append(name)
        return point(name, result), name

    def c(result=True):
        f, _ = pt(result)
        return Apply(f, (val('x'),))

    def t(cat='subject', result=True):
        f, _ = pt(result)
        return target(**{cat: [(Match(f, val('a'), des(cat)),)]})

    out = []

    def add(name, p):
        out.append((name, p, list(pts)))
        del pts[:]
    for alg in ALGS:
        add('rule-c|' + alg, Policy('p', alg, None, (Rule('r', 'P', None, c()),)))
        add('rule-tc|' + alg, Policy('p', alg, None, (Rule('r', 'D', t(), c()),)))
        add('two|' + alg, Policy('p', alg, t('resource'), (
            Rule('r1', 'P', t('action'), c()), Rule('r2', 'D', None, c()))))
        add('dp|' + alg, Policy('p', alg, None, (
            Rule('r1', 'D', None, c(False)), Rule('r2', 'P', None, c()))))
        add('nested|' + alg, Policy('p', alg, None, (
            Rule('r1', 'P', None, Apply(F1 + 'and', (
                Apply(F1 + 'not', (c(False),)), c()))),
            Rule('r2', 'D', t('environment', False), c()))))
        for alg2 in ALGS:
            add('set|%s|%s' % (alg, alg2), PolicySet('s', alg, t('subject'), (
                Policy('p1', alg2, t('action'), (Rule('r', 'P', None, c()),)),
                Policy('p2', alg2, None, (Rule('r', 'D', t(), None),)))))
        add('deep|' + alg, PolicySet('s', alg, None, (
            PolicySet('s2', 'permit-overrides', t(), (
                PolicySet('s3', alg, None, (
                    Policy('p', 'deny-overrides', None,
                           (Rule('r', 'P', t('action'), c()),)),)),)),)))
    return out


REQ = request([attr('subject', 'a')], [attr('resource', 'a')],
              [attr('action', 'a')], [attr('environment', 'a')])


def points(ctx, job):
    """Every set of failing call points (single exception kinds for all
    points; every subset of points with one kind)."""
    excs = custom.exceptions()
    sk = skeletons()
    pdps = {}
    ro = build.o_request(REQ)
    rx = build.x_request(REQ)
    for name, p, pts in shard(sk, job):
        def one(fail_at, exc, which):
            Plan.fail_at, Plan.exc, Plan.calls = frozenset(fail_at), exc, []
            if name not in pdps:
                pdps[name] = (build.x_pdp(p), build.o_pdp(p))
            want = decide(p, REQ)
            for pdp, r in ((pdps[name][0], rx), (pdps[name][1], ro)):
                try:
                    resp = pdp.evaluate(r)
                except Exception as e:
                    raise Mismatch('evaluate raised %s: %s for %r with %r '
                                   'failing' % (type(e).__name__, e, p, fail_at),
                                   sorted(want), 'raised')
                got = build.decision_of(resp)
                ctx.step(max(1, len(Plan.calls)))
                ctx.outcome(got)
                check(got in want, 'decision of %r with %r failing with %s' % (
                    p, sorted(fail_at), which), sorted(want), got)
            # and recovers
            Plan.fail_at = frozenset()
            want = decide(p, REQ)
            for pdp, r in ((pdps[name][0], rx), (pdps[name][1], ro)):
                got = build.decision_of(pdp.evaluate(r))
                check(got in want, 'decision of %r after a failure' % (p,),
                      sorted(want), got)
        for k in range(len(pts) + 1):
            for fa in itertools.combinations(pts, k):
                ctx.state()
                if k == 1:
                    kinds = excs
                else:
                    j = (k * 7 + len(name)) % len(excs)
                    kinds = [excs[j], excs[18]]
                for en, ex in kinds:
                    ctx.case('%s|%s|%s' % (name, '+'.join(fa), en), one, fa, ex,
                             en)


def environment(ctx, job):
    """Failing collaborators and incomplete requests: PIP, attribute selector,
    absent action / environment, wrong value types."""
    L = build.lib()
    excs = custom.exceptions()

    def policies(expr_or_des):
        d = expr_or_des
        t = target(subject=[(Match(F1 + 'string-equal', val('a'), d),)])
        c = Apply(F1 + 'string-at-least-one-member-of',
                  (d, Apply(F1 + 'string-bag', (val('a'),))))
        for alg in ALGS:
            for eff in 'PD':
                r0 = Rule('r', eff, None, None)
                oth = Rule('o', 'P' if eff == 'D' else 'D', None, None)
                yield 'rt|%s%s' % (alg, eff), Policy('p', alg, None, (
                    Rule('r', eff, t, None),))
                yield 'rc|%s%s' % (alg, eff), Policy('p', alg, None, (
                    Rule('r', eff, None, c),))
                yield 'pt|%s%s' % (alg, eff), Policy('p', alg, t, (r0,))
                yield 'mix|%s%s' % (alg, eff), Policy('p', alg, None, (
                    Rule('r', eff, None, c), oth))
                yield 'st|%s%s' % (alg, eff), PolicySet('s', alg, t, (
                    Policy('p', alg, None, (r0,)),))
                yield 'sc|%s%s' % (alg, eff), PolicySet('s', alg, None, (
                    Policy('p', alg, None, (Rule('r', eff, t, c),)),
                    Policy('q', alg, None, (oth,))))

    class Pip(L.CtxHandlerBase):
        def __init__(self, exc):
            super(Pip, self).__init__()
            self.exc = exc

        def handlePEPRequest(self, r):
            raise NotImplementedError()

        def pipQuery(self, request, designator):
            raise self.exc()

    def fails(*a):
        raise Fail('pip')
    cache = Requests()
    for en, ex in excs:
        d = des('subject')
        for nm, p in policies(d):
            ctx.case('pip|%s|%s' % (en, nm), run_policy, ctx, p, [R0], Requests(),
                     ('o',), build.PLAIN, None, None, 2,
                     lambda r: Env(r, pip=FailPip),
                     lambda ro, r: setattr(ro, 'ctxHandler', Pip(ex)))

    # selector: none set, and one that fails
    class Selector(object):
        pass
    from ndg.xacml.utils.xpath_selector import XPathSelectorInterface

    class Bad(XPathSelectorInterface):
        def __init__(self, exc):
            self.exc = exc

        def selectText(self, path):
            raise self.exc()

        def __bool__(self):
            return True
    s = Sel('//x', 'string', False)
    for nm, p in policies(s):
        ctx.case('nosel|%s' % nm, run_policy, ctx, p, [R0], cache)
        for en, ex in excs:
            ctx.case('sel|%s|%s' % (en, nm), run_policy, ctx, p, [R0],
                     Requests(), ('o',), build.PLAIN, None, None, 2, None,
                     lambda ro, r: setattr(ro, 'attributeSelector', Bad(ex)))

    # the library's own selector asked for what is no path
    from ndg.xacml.utils.xpath_selector import EtreeXPathSelector
    root = L.ET.fromstring(build.request_bytes(R0))
    for path in ('.//x[', '//x[', './/x[@', '//x[1', '///x', '(//x', '//x)',
                 './/x["', "//x[='a']", '//x[.=]', '//n:x', '//x[@a=',
                 "//x[@a='b]", '//x[]', '@'):
        s = Sel(path, 'string', False)
        no = Apply(F1 + 'not', (Apply(F1 + 'string-at-least-one-member-of', (
            s, Apply(F1 + 'string-bag', (val('a'),)))),))
        for nm, p in itertools.chain(policies(s), [
                ('not|' + eff, Policy('p', ALGS[2], None, (
                    Rule('r', eff, None, no),))) for eff in 'PD']):
            ctx.case('path|%s|%s' % (path, nm), run_policy, ctx, p, [R0],
                     Requests(), ('o',), build.PLAIN, None, None, 2, None,
                     lambda ro, r: setattr(ro, 'attributeSelector',
                                           EtreeXPathSelector(root)))

    # incomplete requests
    full = request([attr('subject', 'a')], [attr('resource', 'a')],
                   [attr('action', 'a')], [attr('environment', 'a')])
    for cat in SECTIONS:
        for missing in range(16):
            r = Request(() if missing & 1 else full.subjects,
                        () if missing & 2 else full.resources,
                        None if missing & 4 else full.action,
                        None if missing & 8 else full.environment)
            for mb in (False, True):
                for nm, p in policies(des(cat, mbp=mb)):
                    if nm.startswith(('rt', 'pt', 'st', 'sc')) and cat != 'subject':
                        # the match belongs into its own section
                        p = retarget(p, cat)
                    ctx.case('missing|%s|%d|%s|%s' % (cat, missing, mb, nm),
                             run_policy, ctx, p, [r], cache, ('x', 'o') if
                             not mb else ('o',), build.PLAIN, None, None, 1)


def nearly(ctx, job):
    """Attributes that are almost the one that must be present: other issuer,
    identifier, data type or section, alone and in pairs."""
    base_ = [Attr(i, t, iss, ('a',)) for i in (A, A + 'x')
             for t in ('string', 'anyURI') for iss in (None, 'me', 'you', '')]
    base_ += [Attr(A.upper(), 'string', 'me', ('a',)),
              Attr(A, 'string', 'me', ('b', 'a'))]
    sets = [at for k in (0, 1, 2) for at in itertools.combinations(base_, k)]
    cache = Requests()
    todo = []
    for cat in SECTIONS:
        own = [request(**{cat: at}) for at in sets]
        every = [request(**{c: at for c in SECTIONS if c != cat})
                 for at in sets[:19]]
        for iss in (None, 'me', ''):
            d = Des(cat, A, 'string', iss, True)
            t = target(**{cat: [(Match(F1 + 'string-equal', val('a'), d),)]})
            c = Apply(F1 + 'string-at-least-one-member-of',
                      (d, Apply(F1 + 'string-bag', (val('a'),))))
            for eff in 'PD':
                oth = Rule('o', 'P' if eff == 'D' else 'D', None, None)
                for nm, p in (
                        ('t', Policy('p', ALGS[2], None, (
                            Rule('r', eff, t, None), oth))),
                        ('c', Policy('p', ALGS[0], None, (
                            Rule('r', eff, None, c), oth))),
                        ('n', Policy('p', ALGS[1], None, (
                            Rule('r', eff, None, Apply(F1 + 'not', (c,))),
                            oth))),
                        ('p', Policy('p', ALGS[2], t, (oth,))),
                        ('s', PolicySet('s', ALGS[2], None, (
                            PolicySet('q', ALGS[1], t, (
                                Policy('p', ALGS[0], None, (oth,)),)),
                            Policy('p2', ALGS[0], None, (
                                Rule('r', eff, None, None),)))))):
                    todo.append(('%s|%s|%s|%s' % (cat, iss, nm, eff), p,
                                 own + every))
    for name, p, reqs in shard(todo, job):
        ctx.case(name, run_policy, ctx, p, reqs, cache,
                 ('x',) if name.endswith('P') else ('o',), build.PLAIN, None,
                 None, 1)


def FailPip(d):
    raise Fail('pip')


def retarget(p, cat):
    def mv(t):
        return None if t is None else target(**{cat: t[0]})
    if isinstance(p, PolicySet):
        return p._replace(target=mv(p.target),
                          children=tuple(retarget(c, cat) for c in p.children))
    return p._replace(target=mv(p.target), rules=tuple(
        r._replace(target=mv(r.target)) for r in p.rules))


def types(ctx, job):
    """Ill-typed but well-formed policies: every function applied to every
    kind of argument."""
    cache = Requests()
    args = [val('a'), val('u', 'anyURI'), des('subject'),
            Des('resource', A, 'anyURI', None, False),
            Apply(F1 + 'and', ()), Apply(F1 + 'string-bag', (val('a'),)),
            Apply(F1 + 'string-bag', ()), Apply(F1 + 'string-one-and-only', (
                des('subject'),)), Val('rfc822Name', 'a@b')]
    fns = [F1 + n for n in (
        'string-equal', 'anyURI-equal', 'string-one-and-only',
        'anyURI-one-and-only', 'string-bag', 'and', 'not',
        'string-at-least-one-member-of', 'string-regexp-match')] + [
        F2 + n for n in ('string-concatenate', 'anyURI-regexp-match')]
    combos = [()] + [(a,) for a in args] + list(itertools.product(args, repeat=2))
    if ctx.thorough:
        combos += list(itertools.product(args, repeat=3))
    for fn, a in shard(itertools.product(fns, combos), job):
        e = Apply(fn, a)
        for eff in 'PD':
            p = Policy('p', 'permit-overrides', None, (Rule('r', eff, None, e),))
            ctx.case('%s|%d|%s' % (fn.split(':')[-1], combos.index(a), eff),
                     run_policy, ctx, p, [R0], cache,
                     ('x',) if eff == 'P' else ('o',), build.PLAIN, None, None, 1)


def contexterror(ctx, job):
    """A policy that raises a request context error: the response carries that
    error's result."""
    L = build.lib()
    from ndg.xacml.core.context import exceptions as ex
    for cls in (ex.XacmlContextError, ex.XacmlContextTypeError,
                ex.MissingAttributeError):
        for base_ in (L.Policy, L.PolicySet):
            class Raising(base_):
                def evaluate(self, context):
                    raise cls('message')

            def one():
                resp = L.PDP(Raising()).evaluate(build.o_request(R0))
                got = build.decision_of(resp)
                check(got == 'I', 'decision after %s' % cls.__name__, 'I', got)
            ctx.state()
            ctx.step()
            ctx.case('%s|%s' % (cls.__name__, base_.__name__), one)


def run(ctx):
    globals()[base(ctx.job)](ctx, ctx.job)
