"""Attribute designators: which values of the request a designator selects,
and MustBePresent."""
import itertools

from mc import build, custom, spec
from mc.core import Mismatch, check
from mc.pdpcheck import Requests, base, edges, run_policy, shard
from mc.spec import *

I1, I2 = 'urn:mc:id1', 'urn:mc:id2'
PROBE = None
SEEN = []


def probe():
    """A function that records the bag it is given and yields True."""
    global PROBE
    if PROBE is None:
        def impl(*args):
            for bag in args:
                SEEN.append([(v.dataType, v.value) for v in bag])
            return True
        PROBE = custom.register('c05:probe', impl, lambda *a: True)
    return PROBE


def designators(cat, ids=(I1,)):
    return [Des(cat, i, t, iss, mbp) for i in ids for t in ('string', 'anyURI')
            for iss in (None, 'A', '') for mbp in (False, True)]


def universe():
    """Attributes differing in exactly the fields a designator looks at."""
    return [Attr(i, t, iss, vs)
            for i in (I1, I2) for t in ('string', 'anyURI')
            for iss in (None, 'A', 'B')
            for vs in (('x',), ('y', 'x'))] + [
                Attr(I1, 'string', None, ('x', 'x')),
                Attr(I1 + 'x', 'string', None, ('z',)),
                Attr(I1[:-1], 'string', 'A', ('z',)),
                Attr(I1.upper(), 'string', None, ('z',)),
                Attr(I1, 'string', 'a', ('q',)),
                Attr(I1, 'string', '', ('q',)),
                Attr(I1, 'string', 'A', ('',)),
                Attr(I1, 'string', 'A ', ('q',)),
                Attr(I1, 'string', ' A', ('q',)),
                Attr(I1, 'string', 'AA', ('q',)),
                Attr(I1 + ' ', 'string', None, ('q',)),
                Attr(' ' + I1, 'string', None, ('q',)),
                Attr('id1', 'string', None, ('q',)),
                Attr(I1, 'rfc822Name', None, ('x',))]


def bag(d, req):
    try:
        return sorted(bag_of(d, req).items)
    except Fail:
        return E


def one(ctx, policies, req, variant):
    ro = (build.x_request if variant == 'x' else build.o_request)(req)
    for rep in (0, 1):
        for d, pdp in policies:
            del SEEN[:]
            want = bag(d, req)
            dec = build.decision_of(pdp.evaluate(ro))
            ctx.step()
            got = [sorted(v for _, v in b) for b in SEEN]
            if want == E:
                ctx.outcome('E')
                check(dec == 'I', 'designator %r of %r (%s)' % (d, req, variant),
                      'Indeterminate', dec)
            else:
                ctx.outcome(len(want))
                check(dec == 'P' and got == [want],
                      'bag of %r of %r (%s)' % (d, req, variant), want,
                      (dec, got))
                check(all(t == TYPE[d.type] for t, _ in SEEN[0]),
                      'types in the bag of %r' % (d,), TYPE[d.type], SEEN[0])


def probe_policy(d):
    return Policy('p', 'deny-overrides', None,
                  (Rule('r', 'P', None, Apply(probe(), (d,))),))


def wrap(cat, attrs, split=None):
    if split is None:
        return request(**{cat: attrs})
    if cat == 'subject':
        return Request(((ACCESS_SUBJECT, attrs[:split]),
                        ('urn:oasis:names:tc:xacml:1.0:subject-category:codebase',
                         attrs[split:])), ((None, ()),), (), ())
    return Request(((ACCESS_SUBJECT, ()),),
                   ((None, attrs[:split]), (None, attrs[split:])), (), ())


def pairs(ctx, job):
    """All requests with <=2 attributes (thorough: 3) of the universe, one or
    two subjects / resources."""
    for variant in 'xo':
        for cat in shard(SECTIONS, job):
            policies = []
            for d in designators(cat):
                p = probe_policy(d)
                policies.append((d, build.x_pdp(p) if variant == 'x'
                                 else build.o_pdp(p)))
            U = universe()
            n = 0
            for k in range(0, 4 if ctx.thorough else 3):
                pool = U if k < 3 else U[:6] + U[12:18:2]
                for attrs in itertools.product(pool, repeat=k):
                    splits = [None]
                    if cat in ('subject', 'resource') and k:
                        splits += list(range(k)) if k < 3 else [1]
                    for sp in splits:
                        # alternate the ways of making the request
                        n += 1
                        if k == 2 and variant == 'x' and n % 3 and \
                                not ctx.thorough:
                            continue
                        if k == 3 and variant == 'x':
                            continue
                        ctx.state()
                        ctx.case('%s|%s|%d' % (variant, cat, n), one, ctx,
                                 policies, wrap(cat, attrs, sp), variant)


def many(ctx, job):
    """Requests with many attributes and many subjects or resources, a single
    one selected at every position."""
    for variant in 'xo':
        for cat in SECTIONS:
            policies = []
            for d in designators(cat)[:6] + [Des(cat, I1, 'string', 'B', True)]:
                p = probe_policy(d)
                policies.append((d, build.o_pdp(p)))
            for n in (5, 9, 17, 33, 130, 300, 1100):
                for pos in range(n) if n < 40 else edges(n)[::3]:
                    l = [Attr(I2, 'string', 'A', ('x',)),
                         Attr(I1, 'string', 'B', ('x', 'y')),
                         Attr(I1, 'anyURI', 'A', ('x',))]
                    l = [l[(i + pos) % 3] for i in range(n)]
                    l[pos] = Attr(I1, 'string', 'A', ('z', 'x'))
                    reqs = [wrap(cat, tuple(l))]
                    if cat == 'subject':
                        reqs.append(Request(tuple(
                            (ACCESS_SUBJECT if i % 2 else 'urn:c%d' % i, (a,))
                            for i, a in enumerate(l)), ((None, ()),), (), ()))
                    elif cat == 'resource':
                        reqs.append(Request(((ACCESS_SUBJECT, ()),), tuple(
                            (None, (a,)) for a in l), (), ()))
                    for k, r in enumerate(reqs):
                        ctx.state()
                        ctx.case('%s|%s|%d|%d|%d' % (variant, cat, n, pos, k),
                                 one, ctx, policies, r, variant)
            # one attribute of many values
            for n in (5, 17, 130, 300, 1100):
                r = wrap(cat, (Attr(I1, 'string', 'A', tuple(
                    'v%d' % i for i in range(n))),))
                ctx.case('%s|%s|values %d' % (variant, cat, n), one, ctx,
                         policies, r, variant)


def foreign(ctx, job):
    """Attributes of one section are invisible to designators of the others."""
    for variant in 'xo':
        for where in SECTIONS:
            req = request(**{where: [Attr(I1, 'string', None, ('x',))]})
            policies = []
            for cat in SECTIONS:
                d = Des(cat, I1, 'string', None, False)
                p = probe_policy(d)
                policies.append((d, build.o_pdp(p)))
                d = Des(cat, I1, 'string', None, True)
                policies.append((d, build.o_pdp(probe_policy(d))))
            ctx.state()
            ctx.case('%s|%s' % (variant, where), one, ctx, policies, req, variant)
    # absent sections: no subject, no resource
    for cat in ('subject', 'resource'):
        req = Request((), (), (Attr(I1, 'string', None, ('x',)),), ())
        pol = [(d, build.o_pdp(probe_policy(d))) for d in designators(cat)]
        ctx.case('none|%s' % cat, one, ctx, pol, req, 'o')
    for cat in ('action', 'environment'):
        req = Request(((None, (Attr(I1, 'string', None, ('x',)),)),), (), None, None)
        for d in designators(cat):
            p = probe_policy(d)
            ctx.case('absent|%r' % (d,), run_policy, ctx, p, [req], Requests(),
                     ('x', 'o'))


def types(ctx, job):
    """Every standard data type: bag selection by type, programmatically."""
    import datetime
    sample = {'string': 's', 'anyURI': 'u', 'integer': 5, 'boolean': True,
              'double': 1.5, 'x500Name': 'cn=x', 'rfc822Name': 'a@b',
              'hexBinary': 255, 'ipAddress': '1.2.3.4',
              'dnsName': 'a.b', 'date': datetime.datetime(2020, 1, 2),
              'dateTime': datetime.datetime(2020, 1, 2, 3),
              'time': datetime.datetime(1900, 1, 1, 3),
              'dayTimeDuration': datetime.timedelta(1),
              'yearMonthDuration': datetime.timedelta(31)}
    for cat in SECTIONS:
        policies = [(d, build.o_pdp(probe_policy(d))) for t in sorted(sample)
                    for d in (Des(cat, I1, t, None, False),
                              Des(cat, I1, t, None, True))]
        for t1, t2 in itertools.product(sorted(sample), repeat=2):
            req = request(**{cat: [Attr(I1, t1, None, (sample[t1],)),
                                   Attr(I1, t2, None, (sample[t2],))]})
            ctx.state()
            ctx.case('%s|%s|%s' % (cat, t1, t2), one, ctx,
                     [x for x in policies if x[0].type in (t1, t2, 'string')],
                     req, 'o')


def mbp(ctx, job):
    """MustBePresent in target matches of policies, rules and sets, in
    conditions, with the attribute present, absent or of the wrong issuer."""
    cache = Requests()
    for cat in SECTIONS:
        reqs = [request(**{cat: a}) for a in (
            [], [Attr(I1, 'string', None, ('v',))],
            [Attr(I1, 'string', 'A', ('v',))], [Attr(I1, 'string', 'B', ('w',))],
            [Attr(I2, 'string', 'A', ('v',))])]
        for iss, m in itertools.product((None, 'A'), (False, True)):
            d = Des(cat, I1, 'string', iss, m)
            t = target(**{cat: [(Match(F1 + 'string-equal', val('v'), d),)]})
            c = Apply(F1 + 'string-at-least-one-member-of', (
                d, Apply(F1 + 'string-bag', (val('v'), val('u')))))
            for eff in 'PD':
                r0 = Rule('r', eff, None, None)
                for nm, p in (
                        ('rule', Policy('p', 'deny-overrides', None,
                                        (Rule('r', eff, t, None),))),
                        ('policy', Policy('p', 'deny-overrides', t, (r0,))),
                        ('set', PolicySet('s', 'permit-overrides', t, (
                            Policy('p', 'deny-overrides', None, (r0,)),))),
                        ('cond', Policy('p', 'permit-overrides', None,
                                        (Rule('r', eff, None, c),)))):
                    ctx.case('%s|%s|%s|%s|%s' % (cat, iss, m, eff, nm),
                             run_policy, ctx, p, reqs, cache)
        # the XML spellings of MustBePresent
        for sp, m in (('true', True), ('false', False), ('1', True),
                      ('0', False), (None, False)):
            def xml():
                n = build.policy_node(Policy('p', 'deny-overrides', target(
                    **{cat: [(Match(F1 + 'string-equal', val('v'), Des(
                        cat, I1, 'string', None, False)),)]}),
                    (Rule('r', 'P', None, None),)))
                for _, x in n.walk():
                    if x.tag.endswith('Designator') and sp is not None:
                        x.attrs.append(('MustBePresent', sp))
                import io
                L = build.lib()
                pdp = L.PDP.fromPolicySource(io.BytesIO(build.to_bytes(n)),
                                             L.ReaderFactory)
                got = build.decision_of(pdp.evaluate(build.o_request(reqs[0])))
                check(got == ('I' if m else 'N'), 'MustBePresent=%r' % sp,
                      'I' if m else 'N', got)
            ctx.case('%s|spelling|%s' % (cat, sp), xml)


def mixed(ctx, job):
    """Attributes made by hand whose values are not all of the declared data
    type: what is selected has the designator's data type, both as declared
    and as the value's own; the values themselves alone do not count."""
    L = build.lib()
    T = ('string', 'anyURI', 'dnsName')
    for cat in SECTIONS:
        policies = []
        for t, m in itertools.product(T, (False, True)):
            d = Des(cat, I1, t, None, m)
            policies.append((d, build.o_pdp(probe_policy(d))))
        atts = [(dt, ts) for dt in T for n in (1, 2, 3)
                for ts in itertools.product(T, repeat=n)]
        lists = [(x,) for x in atts] + [
            (x, y) for x in atts if len(x[1]) < 3
            for y in atts if len(y[1]) < (3 if ctx.thorough else 2)]
        for l in lists:
            def one_(l=l):
                ro = build.o_request(request())
                o = {'subject': ro.subjects[0], 'resource': ro.resources[0],
                     'action': ro.action, 'environment': ro.environment}[cat]
                for k, (dt, ts) in enumerate(l):
                    a = L.Attribute()
                    a.attributeId, a.dataType = I1, TYPE[dt]
                    for j, t in enumerate(ts):
                        v = build.o_expr(val('v%d%d' % (k, j), t))
                        a.attributeValues.append(v)
                    o.attributes.append(a)
                for d, pdp in policies:
                    del SEEN[:]
                    dec = build.decision_of(pdp.evaluate(ro))
                    ctx.step()
                    want = sorted('v%d%d' % (k, j) for k, (dt, ts) in
                                  enumerate(l) if dt == d.type
                                  for j, t in enumerate(ts) if t == d.type)
                    odd = any(dt == d.type and t != d.type for dt, ts in l
                              for t in ts)
                    if odd and dec == 'I':
                        continue            # a fault of the request
                    got = [sorted(v for _, v in b) for b in SEEN]
                    if not want and d.mbp:
                        ok = dec == 'I'
                    else:
                        ok = dec == 'P' and got == [want]
                    ctx.outcome((len(want), dec))
                    check(ok, 'bag of %r of values of mixed types %r' % (d, l),
                          want or (d.mbp and 'Indeterminate'), (dec, got))
            ctx.state()
            ctx.case('%s|%r' % (cat, l), one_)


def run(ctx):
    probe()
    globals()[base(ctx.job)](ctx, ctx.job)
