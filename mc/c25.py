"""Copies of requests, responses and policies have the content of the original,
behave as it does, and are independent of it."""
import copy
import itertools
import pickle

from mc import build, spec
from mc.build import Node
from mc.c08 import TEXTS
from mc.c13 import (I, attr_, content_of, large, long_texts, OTHER, probes,
                    requests, slots)
from mc.core import check
from mc.pdpcheck import base, shard
from mc.spec import *


def unpickled(n):
    return lambda o: pickle.loads(pickle.dumps(o, n))


DEEP = [('deepcopy', copy.deepcopy)] + [
    ('pickle %d' % n, unpickled(n))
    for n in range(2, pickle.HIGHEST_PROTOCOL + 1)]
ALL = [('copy', copy.copy)] + DEEP


# -- what is compared -------------------------------------------------------------
def native(v):
    return (type(v).__name__, v.dataType, type(v.value).__name__, repr(v.value))


def attribute(a):
    L = build.lib()
    check(a.attributeValues.elementType is L.AttributeValue,
          'type of the values of an attribute')
    return (type(a).__name__, a.xmlns, a.attributeId, a.dataType, a.issuer,
            tuple(native(v) for v in a.attributeValues))


def section(s):
    if s is None:
        return None
    check(s.attributes.elementType is build.lib().Attribute,
          'type of the attributes of a section')
    out = (type(s).__name__, tuple(attribute(a) for a in s.attributes))
    if hasattr(s, 'subjectCategory'):
        out += (s.subjectCategory,)
    if hasattr(s, 'resourceContent'):
        c = s.resourceContent
        out += (content_of(c) if hasattr(c, 'tag') else repr(c),)
    return out


def request(r):
    L = build.lib()
    check(type(r) is L.Request, 'not a request', 'Request', type(r).__name__)
    check(r.subjects.elementType is L.section['subject'][3],
          'type of the subjects')
    check(r.resources.elementType is L.section['resource'][3],
          'type of the resources')
    return (tuple(section(s) for s in r.subjects),
            tuple(section(s) for s in r.resources), section(r.action),
            section(r.environment), content_of(r.elem), r.ctxHandler is None)


def code(c):
    return None if c is None else (type(c).__name__, c.value)


def status(s):
    return None if s is None else (type(s).__name__, code(s.statusCode),
                                   s.statusMessage, repr(s.statusDetail))


def obligation(o):
    return None if o is None else (
        type(o).__name__, o.obligationId, o.fulfillOn,
        o.attributeAssignments.elementType, tuple(
            type(a).__name__ for a in o.attributeAssignments))


def decision(d):
    return None if d is None else (type(d).__name__, d.value, str(d))


def result(r):
    return (type(r).__name__, r.resourceId, decision(r.decision),
            status(r.status), obligation(r.obligations))


def response(r):
    L = build.lib()
    check(type(r) is L.Response, 'not a response', 'Response', type(r).__name__)
    check(r.results.elementType is L.Result, 'type of the results')
    return tuple(result(x) for x in r.results)


def copies(ctx, what, o, see, ways=ALL, twice=False):
    """Every copy of o looks like o; o stays as it was."""
    before = see(o)
    out = []
    for name, fn in ways:
        c = fn(o)
        check(c is not o, '%s of %s is the object itself' % (name, what))
        check(type(c) is type(o), 'type of a %s of %s' % (name, what),
              type(o).__name__, type(c).__name__)
        check(see(c) == before, '%s of %s' % (name, what), before, see(c))
        check(see(o) == before, '%s: the %s changed' % (name, what), before,
              see(o))
        out.append((name, c))
        ctx.step()
        if twice:
            for name2, fn2 in ways:
                d = fn2(c)
                check(see(d) == before, '%s of a %s of %s' % (name2, name, what),
                      before, see(d))
                ctx.step()
    ctx.state()
    return out


def by_hand(r):
    """A request of the library put together by hand, of natives and texts."""
    return build.o_request(r)


# -- requests -----------------------------------------------------------------------
PDPS = []


def decided(o):
    if not PDPS:
        PDPS.extend(build.o_pdp(p) for p in probes())
    return ''.join(build.decision_of(p.evaluate(o)) for p in PDPS)


def request_job(ctx, job):
    for i, r in enumerate(shard(requests(), job)):
        ctx.sample(repr(r)[:300])
        ctx.case('%d %s' % (i, repr(r)[:80]), one_request, ctx, r, i)
    for t in ('', ' ', '\n ', 'text', '<&'):
        ctx.case('content followed by %r' % t, followed, ctx, t)
    for s in shard(TEXTS, job):
        for name, r in slots(s):
            ctx.case('%s %r' % (name, s), by_hand_only, ctx, r)


def followed(ctx, t):
    r = by_hand(next(subject_requests()))
    r.resources[0].resourceContent.tail = t
    copies(ctx, 'a request', r, request)
    r = build.x_request(next(subject_requests()))
    r.resources[0].resourceContent.tail = t
    copies(ctx, 'a request', r, request)
    copies(ctx, 'a resource', r.resources[0], section)


def by_hand_only(ctx, r):
    copies(ctx, 'a request', by_hand(r), request)


def one_request(ctx, r, i):
    big = len(r.subjects) + len(r.resources) > 6
    objs = [('by hand', by_hand(r)), ('read', build.x_request(r))]
    if ctx.thorough or i % 5 == 0:
        objs += [(st.name, build.x_request(r, st)) for st in build.STYLES[1:5]]
    for name, o in objs:
        cs = copies(ctx, 'a request ' + name, o, request,
                    twice=not big and (ctx.thorough or i % 16 == 0))
        if not big and (ctx.thorough or i % 6 == 0):
            want = decided(o)
            for way, c in cs:
                check(decided(c) == want, 'decisions on a %s of a request %s' %
                      (way, name), want, decided(c))
                ctx.step(len(PDPS))
        for s in list(o.subjects) + list(o.resources) + [
                x for x in (o.action, o.environment) if x is not None]:
            if big or (i % 4 and not ctx.thorough):
                break
            copies(ctx, 'a ' + type(s).__name__, s, section)
            for a in s.attributes:
                copies(ctx, 'an attribute', a, attribute)
                for v in a.attributeValues:
                    copies(ctx, 'a value', v, native)
            for l in [s.attributes] + [a.attributeValues for a in s.attributes]:
                see = attribute if l is s.attributes else native
                copies(ctx, 'a list', l, lambda l: (
                    l.elementType, [see(x) for x in l]))
        for l in (o.subjects, o.resources):
            copies(ctx, 'a list', l, lambda l: (
                l.elementType, [section(x) for x in l]))
    ctx.outcome('%d sections' % (len(r.subjects) + len(r.resources)))


# -- values -----------------------------------------------------------------------------
def value_job(ctx, job):
    from mc.c22 import KIND, GOOD
    for t in sorted(KIND):
        for x in GOOD[KIND[t]]:
            ctx.case('%s %r' % (t, x), one_value, ctx, t, x)


def one_value(ctx, t, x):
    L = build.lib()
    v = L.valueClass(TYPE[t])(x)
    for name, c in copies(ctx, 'a value', v, native, twice=True):
        check(c == v and v == c, '%s equal to the value' % name, True, False)
        check(c.value == x, '%s has the value' % name, x, c.value)
        # it refuses what the value refuses
        for bad in (object(), b'a', None):
            try:
                c.value = bad
            except TypeError:
                pass
            else:
                check(False, '%s of %s takes %r' % (name, t, bad))
        check(c.value == x and v.value == x, 'value after a refusal', x, c.value)
    a = L.Attribute()
    a.attributeId, a.dataType = 'a', TYPE[t]
    a.attributeValues.extend([v, v, L.valueClass(TYPE[t])(x)])
    for name, c in copies(ctx, 'an attribute', a, attribute, twice=True):
        for bad in ('a', x, None, a, object()):
            for add in (c.attributeValues.append,
                        lambda b: c.attributeValues.insert(0, b),
                        lambda b: c.attributeValues.extend([b])):
                try:
                    add(bad)
                except TypeError:
                    pass
                else:
                    check(False, '%s takes %r as value' % (name, bad))
        check(attribute(c) == attribute(a), 'after refusals')
        ctx.step()
    ctx.state()
    ctx.outcome(t)


# -- responses --------------------------------------------------------------------------
def results():
    from ndg.xacml.core.context.result import Decision, Result, StatusCode
    from ndg.xacml.core.obligation import Obligation
    decs = list(Decision.TYPES)
    codes = list(StatusCode.CODES)

    def oblig(i, f):
        o = Obligation()
        if i is not None:
            o.obligationId = i
        if f is not None:
            o.fulfillOn = f
        return o

    yield 'nothing', Result
    for d in decs:
        for rid, c, m, det in itertools.product(
                ('', 'r', u'\xe9 <&>'), codes, ('', 'm', u'\u20ac\n "'),
                ('', 'd', ('x', 1), {'k': [1, 2]}, None)):
            yield '%s %s %s %r %r' % (d, rid, c, m, det), lambda d=d, rid=rid, \
                c=c, m=m, det=det: Result.createInitialised(
                    decision=d, resourceId=rid, code=c, message=m, detail=det)
    for d in (Decision.PERMIT, Decision.DENY, Decision.INDETERMINATE,
              Decision.NOT_APPLICABLE):
        def const(d=d):
            r = Result()
            r.decision = d
            return r
        yield 'constant %s' % d, const
    for i, f in itertools.product((None, '', 'o', u'\xe9'),
                                  (None, 'Permit', 'Deny')):
        def obliged(i=i, f=f):
            return Result.createInitialised(decision='Deny',
                                            obligations=oblig(i, f))
        yield 'obligation %r %r' % (i, f), obliged


def response_job(ctx, job):
    L = build.lib()
    made = list(results())
    for i, (name, mk) in enumerate(shard(made, job)):
        ctx.case(name, one_result, ctx, mk)
    few = made[::max(1, len(made) // 11)]
    for k in range(4):
        for ms in shard(itertools.product(few, repeat=k), job):
            if k == 3 and not ctx.thorough and ms[0][0] > ms[1][0]:
                continue
            ctx.case('response of ' + ', '.join(n for n, _ in ms), one_response,
                     ctx, [m for _, m in ms])
    for i, (p, r) in enumerate(shard(itertools.product(
            list(probes())[::3], list(requests())[::97]), job)):
        ctx.case('evaluated %d' % i, evaluated, ctx, p, r)


def one_result(ctx, mk):
    r = mk()
    copies(ctx, 'a result', r, result, twice=True)
    if r.status is not None:
        copies(ctx, 'a status', r.status, status)
        copies(ctx, 'a status code', r.status.statusCode, code)
    if r.decision is not None:
        for name, c in copies(ctx, 'a decision', r.decision, decision):
            for d in ('Permit', 'Deny', 'Indeterminate', 'NotApplicable'):
                check((c == d) is (r.decision.value == d),
                      '%s of %s == %s' % (name, r.decision, d))
            check(c == r.decision and r.decision == c, '%s equal' % name)
    if r.obligations is not None:
        copies(ctx, 'an obligation', r.obligations, obligation)
    ctx.outcome('result')


def one_response(ctx, mks):
    L = build.lib()
    r = L.Response()
    r.results.extend(mk() for mk in mks)
    for name, c in copies(ctx, 'a response', r, response):
        for bad in (None, 'Permit', r):
            try:
                c.results.append(bad)
            except TypeError:
                pass
            else:
                check(False, '%s takes %r as result' % (name, bad))
    for name, fn in DEEP:
        c = fn(r)
        before = response(r)
        # emptied
        for x in c.results:
            if x.status is not None:
                if x.status.statusCode is not None:
                    x.status.statusCode.value = x.status.statusCode.CODES[-1]
                x.status.statusMessage = 'changed'
            x.resourceId = 'changed'
            x.decision = L.Decision('Deny')
        del c.results[:]
        check(response(r) == before, 'changing a %s' % name, before, response(r))
        ctx.step()
    ctx.outcome('%d results' % len(mks))


def evaluated(ctx, p, r):
    res = build.o_pdp(p).evaluate(build.o_request(r))
    for name, c in copies(ctx, 'the response of a decision', res, response,
                          twice=True):
        check(build.decision_of(c) == build.decision_of(res), name)
    ctx.outcome(build.decision_of(res))


# -- independence -------------------------------------------------------------------------
def edits():
    """(name, change of a request); each changes what the request holds."""
    L = build.lib()
    S = L.section['subject'][3]
    R = L.section['resource'][3]

    def new_attr(id='new'):
        return build.o_attr(attr_(id, 'string', 'j', 'n'))

    yield 'add subject', lambda r: r.subjects.append(S())
    yield 'add subject first', lambda r: r.subjects.insert(0, S())
    yield 'remove subject', lambda r: r.subjects.pop()
    yield 'category', lambda r: setattr(r.subjects[0], 'subjectCategory', 'new')
    yield 'add resource', lambda r: r.resources.append(R())
    yield 'no resources', lambda r: r.resources.__delitem__(slice(None))
    yield 'action', lambda r: setattr(r, 'action', L.section['action'][3]())
    yield 'environment', lambda r: setattr(r, 'environment',
                                           L.section['environment'][3]())
    for name, part in (('subject', lambda r: r.subjects[-1]),
                       ('resource', lambda r: r.resources[-1]),
                       ('action', lambda r: r.action),
                       ('environment', lambda r: r.environment)):
        at = lambda r, part=part: part(r).attributes[0]
        yield name + ' add', lambda r, part=part: part(r).attributes.append(
            new_attr())
        yield name + ' remove', lambda r, part=part: part(r).attributes.pop(0)
        yield name + ' id', lambda r, at=at: setattr(at(r), 'attributeId', 'new')
        yield name + ' type', lambda r, at=at: setattr(at(r), 'dataType', 'new')
        yield name + ' issuer', lambda r, at=at: setattr(at(r), 'issuer', 'new')
        yield name + ' value', lambda r, at=at: setattr(
            at(r).attributeValues[0], 'value', 'new')
        yield name + ' value type', lambda r, at=at: setattr(
            at(r).attributeValues[0], 'dataType', 'new')
        yield name + ' add value', lambda r, at=at: at(r).attributeValues.append(
            build.o_value(Val('string', 'new')))
        yield name + ' remove value', lambda r, at=at: at(r).attributeValues.pop()
    cont = lambda r: r.resources[0].resourceContent
    yield 'no content', lambda r: setattr(r.resources[0], 'resourceContent', None)
    yield 'content text', lambda r: setattr(cont(r), 'text', 'new')
    yield 'content attribute', lambda r: cont(r).set('new', 'new')
    yield 'content child', lambda r: cont(r).append(
        build.lib().ET.Element('new'))
    yield 'content deeper', lambda r: setattr(cont(r)[0], 'text', 'new')


def subject_requests():
    a = attr_('a', 'string', 'i', 'x', 'y')
    b = attr_('b', 'anyURI', None, 'z')
    content = Node('ResourceContent', [('k', 'v')], Node('x', [], 'one'))
    yield Request(((None, (a, b)), (OTHER, (a,))), ((content, (b, a)),), (a,),
                  (b, b))
    yield Request(((None, (b,)),), ((content, (a,)), (None, (a,))), (a, a), (a,))
    # the same objects used more than once, by hand only
    yield None


def shared():
    """A request whose parts are used at several places."""
    r = build.o_request(next(subject_requests()))
    s = r.subjects[0]
    r.subjects.append(s)
    r.action.attributes.append(s.attributes[0])
    v = s.attributes[0].attributeValues[0]
    r.environment.attributes[0].attributeValues.append(v)
    return r


def independent_job(ctx, job):
    es = list(edits())
    for q, r in enumerate(subject_requests()):
        for kind in ('by hand', 'read'):
            if r is None:
                if kind == 'read':
                    continue
                mk = shared
            else:
                mk = (lambda r=r: build.o_request(r)) if kind == 'by hand' else \
                    (lambda r=r: build.x_request(r))
            for n in (1, 2):
                for h in shard(itertools.product(es, repeat=n), job):
                    if n == 2 and not ctx.thorough and (
                            hash_of(h[0][0]) + hash_of(h[1][0]) + q) % 4:
                        continue
                    ctx.case('%d %s: %s' % (q, kind, ', '.join(x for x, _ in h)),
                             independent, ctx, mk, [f for _, f in h],
                             ctx.thorough or n == 1)


def hash_of(s):
    return sum(map(ord, s))


def independent(ctx, mk, fns, everyway):
    plain = request(mk())

    def changed():
        """What a request looks like after each change, None if refused."""
        r, out = mk(), []
        for f in fns:
            try:
                f(r)
            except (IndexError, AttributeError, TypeError):
                out.append(None)
            else:
                out.append(view(r))
        return out

    def view(r):
        return request(r)[:4]

    want = changed()
    for name, fn in (DEEP if everyway else DEEP[:1] + DEEP[3:4]):
        for side in (0, 1):
            o = mk()
            pair = [o, fn(o)]
            ctx.step()
            for f, w in zip(fns, want):
                if w is None:
                    continue
                f(pair[side])
                check(view(pair[side]) == w, 'change of the %s' %
                      (('original', name)[side]), w, view(pair[side]))
                check(view(pair[1 - side]) == plain[:4],
                      'changing the %s changed the %s' % (
                          ('original', name)[side], (name, 'original')[side]),
                      plain[:4], view(pair[1 - side]))
                ctx.step()
            ctx.state()
    ctx.outcome('%d changes' % len([w for w in want if w is not None]))


# -- policies ---------------------------------------------------------------------------------
def policies():
    from mc import c08
    for p in c08.corpus():
        yield p
    ps = list(probes())
    for p in ps:
        yield p
    for k, alg in itertools.product(range(len(ps) - 2), ALGS):
        yield PolicySet('s', alg, None, (ps[k], ps[k + 2]._replace(rules=(
            Rule('r', 'D', ps[k + 1].target, None),)), ps[k + 1]))
    for i, p in enumerate(itertools.chain(c08.with_exprs(), c08.with_targets(),
                                          c08.with_rules(), c08.with_sets())):
        if i % 5 == 0:
            yield p


def policy_job(ctx, job):
    for i, p in enumerate(shard(policies(), job)):
        ctx.sample(repr(p)[:200])
        ctx.case('%d %s' % (i, repr(p)[:100]), one_policy, ctx, p,
                 ctx.thorough or i % 3 == 0)


def decide_requests():
    c = Node('ResourceContent', [], Node('x', [], 'one'))
    v = attr_('a', 'string', None, 'x', 'y')
    yield Request((), (), None, None)
    yield Request(((None, (v,)),), ((c, (v,)),), (v,), (v,))
    for cat in SECTIONS:
        for x in ('v', 'x', u'\xe9 & <x>', 'now'):
            a = (Attr(I, 'string', None, (x,)), Attr(I, 'string', 'i', (x,)),
                 Attr(spec.ID[cat], 'string', None, (x,)))
            yield Request(((None, a if cat == 'subject' else ()),),
                          ((None, a if cat == 'resource' else ()),),
                          a if cat == 'action' else (),
                          a if cat == 'environment' else ())


def described(o):
    d = o.policyDefaults if hasattr(o, 'policyDefaults') else o.policySetDefaults
    kids = o.rules if hasattr(o, 'rules') else o.policies
    return (o.version, o.description, None if d is None else d.xpathVersion,
            tuple(described(k) if hasattr(k, 'target') and
                  not hasattr(k, 'effect') else k.description for k in kids))


def one_policy(ctx, p, full):
    L = build.lib()
    from mc.c08 import load
    objs = [('by hand', build.o_policy(p))]
    try:
        objs.append(('read', load(p, build.PLAIN)))
    except Exception:
        # conditions that documents can't express
        pass
    reqs = [build.o_request(r) for r in decide_requests()]
    for kind, o in objs:
        see = lambda x: (build.a_policy(x), described(x))
        before = see(o)
        want = [build.decision_of(L.PDP(o).evaluate(r)) for r in reqs]
        for name, fn in (('copy', copy.copy), ('deepcopy', copy.deepcopy),
                         ('copy of a deepcopy',
                          lambda o: copy.copy(copy.deepcopy(o)))):
            c = fn(o)
            check(type(c) is type(o), 'type of a copy')
            check(see(c) == before, '%s of a policy %s' % (name, kind),
                  before, see(c))
            got = [build.decision_of(L.PDP(c).evaluate(r)) for r in reqs]
            check(got == want, 'decisions of a %s of a policy %s' % (name, kind),
                  want, got)
            check(see(o) == before, '%s changed the policy' % name)
            ctx.step(len(reqs))
            if name != 'copy':
                clear(c)
                check(see(o) == before,
                      'changing a %s changed the policy %s' % (name, kind),
                      before, see(o))
                got = [build.decision_of(L.PDP(o).evaluate(r)) for r in reqs]
                check(got == want, 'decisions after a %s was changed' % name,
                      want, got)
                ctx.step(len(reqs))
        ctx.state()
    ctx.outcome(''.join(sorted(set(want))))


def clear(p):
    """Change every part of a policy."""
    L = build.lib()
    kids = p.rules if hasattr(p, 'rules') else p.policies
    if p.target is not None:
        for part in (p.target.subjects, p.target.resources, p.target.actions,
                     p.target.environments):
            for entry in part:
                for m in entry.matches:
                    m.matchId = F1 + 'anyURI-equal'
                    if m.attributeValue is not None:
                        m.attributeValue.value = 'changed'
                    if m.attributeDesignator is not None:
                        m.attributeDesignator.attributeId = 'changed'
                del entry.matches[:]
            del part[:]
    for k in kids:
        if hasattr(k, 'effect'):
            k.effect.value = 'Permit' if str(k.effect) == 'Deny' else 'Deny'
            k.id = 'changed'
            if k.condition is not None and hasattr(k.condition.expression,
                                                   'expressions'):
                del k.condition.expression.expressions[:]
        else:
            clear(k)
    if hasattr(p, 'rules'):
        p.policyId = 'changed'
        p.ruleCombiningAlgId = build.alg_id('rule', ALGS[2])
    else:
        p.policySetId = 'changed'
        p.policyCombiningAlgId = build.alg_id('policy', ALGS[2])
    del kids[:]


# -- sizes -----------------------------------------------------------------------------
def long_job(ctx, job):
    for i, (n, r) in enumerate(shard(large(ctx.thorough), job)):
        ctx.case('%d of %d' % (i, n), large_request, ctx, r)
    for n, name, r in shard(long_texts(ctx.thorough), job):
        ctx.case('%s of %d' % (name, n), large_request, ctx, r)
    made = list(results())
    for n in (130, 300, 1100) + (2100, 4200) * ctx.thorough:
        ctx.case('results %d' % n, large_response, ctx, [
            made[i * 13 % len(made)][1] for i in range(n)])


def large_request(ctx, r):
    for o in (by_hand(r), build.x_request(r)):
        copies(ctx, 'a request', o, request)


def large_response(ctx, mks):
    r = build.lib().Response()
    r.results.extend(mk() for mk in mks)
    copies(ctx, 'a response', r, response)


def run(ctx):
    globals()[base(ctx.job) + '_job'](ctx, ctx.job)
