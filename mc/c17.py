"""Attribute values a context handler supplies complete those of the request."""
import itertools
import logging

from mc import build, spec
from mc.core import Mismatch, check
from mc.pdpcheck import base, shard
from mc.spec import *

EQ = F1 + 'string-equal'
ID_A, ID_B = 'urn:mc:a', 'urn:mc:b'
OTHER = 'urn:mc:other-category'


class Pip(object):
    """Information point: data[(attribute id, data type, issuer)] -> texts."""

    def __init__(self, data, form='list'):
        self.data, self.form, self.calls, self.given = data, form, [], []

    def answer(self, d):
        return self.data.get((d.attributeId, build.UNTYPE.get(d.dataType),
                              d.issuer), ())

    def texts(self, des):
        return list(self.data.get((des.id, des.type, des.issuer), ()))


def handler(pip):
    L = build.lib()

    class H(L.CtxHandlerBase):
        def handlePEPRequest(self, pepRequest):
            raise AssertionError('handler asked to handle a request')

        def pipQuery(self, request, designator):
            pip.calls.append((request, designator))
            vs = pip.answer(designator)
            t = build.UNTYPE.get(designator.dataType)
            out = [build.o_value(Val(t, v)) for v in vs]
            f = pip.form
            if f == 'list':
                res = out
            elif f == 'tuple':
                res = tuple(out)
            elif f == 'typed':
                from ndg.xacml.utils import TypedList
                res = TypedList(L.valueClass(designator.dataType), out)
            elif f == 'generator':
                return (x for x in out)
            elif f == 'none':
                return None if not out else out
            elif f == 'same':
                # one list per designator, handed out again and again
                k = (designator.attributeId, designator.dataType,
                     designator.issuer)
                for k2, lst, copy in pip.given:
                    if k2 == k and [v.value for v in copy] == list(vs):
                        return lst
                res = out
                pip.given.append((k, res, list(res)))
            return res
    return H()


def unchanged(pip):
    for k, lst, copy in pip.given:
        check(len(lst) == len(copy) and all(a is b for a, b in zip(lst, copy)),
              'list of the information point changed', copy, lst)


def sublists(u):
    """Every list of distinct members."""
    for k in range(len(u) + 1):
        for p in itertools.permutations(u, k):
            yield p


# -- bags ------------------------------------------------------------------------
def bags(ctx, job):
    forms = ('list', 'tuple', 'typed', 'generator', 'none', 'same')
    own = [vs for k in range(3) for vs in itertools.product('vw', repeat=k)]
    todo = itertools.product(own, sublists('vwx'), ('string', 'anyURI'),
                             (None, 'i', ''), forms)
    for vs, ps, t, iss, form in shard(todo, job):
        ctx.case('%r %r %s %r %s' % (vs, ps, t, iss, form), one_bag, ctx, vs, ps,
                 t, iss, form)


def one_bag(ctx, vs, ps, t, iss, form):
    attrs = tuple(Attr(ID_A, t, i, vs) for i in ('i', None, 'j') if vs) + (
        Attr(ID_B, t, iss, ('b',)), Attr(ID_A, 'string' if t == 'anyURI'
                                         else 'anyURI', iss, ('t',)))
    req = Request(((None, attrs),), (), (), ())
    data = {(ID_A, t, iss): ps, (ID_B, t, iss): ('bb',),
            (ID_A, t, 'zz'): ('wrong issuer',),
            (ID_A, 'string' if t == 'anyURI' else 'anyURI', iss): ('type',)}
    pip = Pip(data, form)
    o = build.o_request(req)
    o.ctxHandler = handler(pip)
    plain = build.o_request(req)
    for mbp in (False, True):
        d = Des('subject', ID_A, t, iss, mbp)
        od = build.o_expr(d)
        want = None
        try:
            want = spec.bag_of(d, req, pip.texts)
        except spec.Fail:
            pass
        for n in range(3):
            try:
                bag = od.evaluate(o)
            except Exception as e:
                check(want is None, 'designator failed: %r' % e, want,
                      type(e).__name__)
            else:
                check(want is not None, 'MustBePresent', 'error', list(bag))
                got = sorted(v.value for v in bag)
                check(got == sorted(want.items), 'bag', sorted(want.items), got)
                for v in bag:
                    check(v.dataType == TYPE[t], 'data type', TYPE[t], v.dataType)
                # the bag is the caller's
                del bag[:]
            # without a handler only the request counts
            try:
                w2 = sorted(spec.bag_of(d, req).items)
            except spec.Fail:
                w2 = None
            try:
                g2 = sorted(v.value for v in od.evaluate(plain))
            except Exception:
                g2 = None
            check(g2 == w2, 'bag without a handler', w2, g2)
            ctx.step()
        # exactly this designator was asked for, with this request
        check(pip.calls, 'the information point was not asked', 'query', None)
        for r, q in pip.calls:
            check(r is o and q.attributeId == ID_A and q.issuer == iss and
                  q.dataType == TYPE[t], 'query', (ID_A, t, iss),
                  (q.attributeId, q.dataType, q.issuer))
        del pip.calls[:]
        unchanged(pip)
    check(build.a_request(o)._replace(resources=()) ==
          build.a_request(plain)._replace(resources=()), 'request changed',
          build.a_request(plain), build.a_request(o))
    ctx.state()
    ctx.outcome(len(vs) + len(ps))


# -- several subjects ---------------------------------------------------------------
def subjects(ctx, job):
    vals = ['', 'v', 'w', 'vw']
    for n in range(0, 4):
        for vs in itertools.product(vals, repeat=n):
            for ps in sublists('vwx'):
                if n == 3 and len(ps) > 2 and not ctx.thorough:
                    continue
                ctx.case('%r %r' % (vs, ps), several, ctx, vs, ps)


def several(ctx, vs, ps):
    """The values are those of the request and of the information point; how
    often one both have counts is only specified for one subject."""
    req = Request(tuple((OTHER if i else None, (Attr(
        ID_A, 'string', None, tuple(v)),) if v else ())
        for i, v in enumerate(vs)), (), (), ())
    pip = Pip({(ID_A, 'string', None): ps})
    o = build.o_request(req)
    o.ctxHandler = handler(pip)
    own = [x for v in vs for x in v]
    for mbp in (False, True):
        d = build.o_expr(Des('subject', ID_A, 'string', None, mbp))
        want = set(own) | (set(ps) if vs else set())
        try:
            bag = d.evaluate(o)
        except Exception as e:
            check(mbp and not want, 'designator failed: %r' % e, want, None)
            continue
        if not vs and set(v.value for v in bag) <= set(ps):
            continue                    # no subject to ask for
        got = [v.value for v in bag]
        check(set(got) == want, 'values', sorted(want), got)
        for x in want:
            n = own.count(x)
            check(got.count(x) >= max(n, 1) and got.count(x) <= n + 1,
                  'number of values %r' % x, max(n, 1), got.count(x))
        check(not (mbp and not got), 'MustBePresent', 'error', got)
        ctx.step()
    ctx.state()


# -- decisions -------------------------------------------------------------------------
def policies():
    n = itertools.count()
    for t, iss, mbp in itertools.product(('string', 'anyURI'), (None, 'i'),
                                         (False, True)):
        d = Des('subject', ID_A, t, iss, mbp)
        for v in 'vx':
            m = target(subject=((Match(F1 + t + '-equal', Val(t, v), d),),))
            yield Policy('p%d' % next(n), ALGS[0], m, (Rule('r', 'P', None, None),))
            yield Policy('p%d' % next(n), ALGS[1], None, (
                Rule('r', 'D', m, None), Rule('s', 'P', None, Apply(
                    F1 + t + '-at-least-one-member-of', (
                        Apply(F1 + t + '-bag', (Val(t, 'w'),)), d)))))
            yield Policy('p%d' % next(n), ALGS[2], None, (
                Rule('r', 'P', None, Apply(F1 + t + '-equal', (
                    Val(t, v), Apply(F1 + t + '-one-and-only', (d,))))),
                Rule('s', 'D', None, None)))
            # other sections are never completed
            for cat in ('resource', 'action', 'environment'):
                mm = Match(F1 + t + '-equal', Val(t, v), d._replace(cat=cat))
                yield Policy('p%d' % next(n), ALGS[2], None, (
                    Rule('r', 'P', target(**{cat: ((mm,),)}), None),
                    Rule('s', 'D', m, None)))


def decisions(ctx, job):
    pips = [{(ID_A, t, iss): ps for t in ('string', 'anyURI')
             for iss in (None, 'i')} for ps in sublists('vwx')]
    pips += [{(ID_A, 'string', None): 'v'}, {(ID_A, 'anyURI', 'i'): 'x'}, {}]
    reqs = []
    for t in ('string', 'anyURI'):
        for iss in (None, 'i'):
            for vs in ((), ('v',), ('w', 'x')):
                a = (Attr(ID_A, t, iss, vs),) if vs else ()
                reqs.append(Request(((None, a),), ((None, a),), a, ()))
    for p in shard(policies(), job):
        ctx.sample(repr(p)[:300])
        ctx.case(p.id, one_policy, ctx, p, pips, reqs)


def one_policy(ctx, p, pips, reqs):
    pdp = build.x_pdp(p)
    for data in pips:
        pip = Pip(data, 'same')
        h = handler(pip)
        for req in reqs:
            o = build.o_request(req)
            o.ctxHandler = h
            want = spec.decide(p, spec.Env(req, pip=pip.texts))
            bare = spec.decide(p, req)
            for n in range(2):
                got = build.decision_of(pdp.evaluate(o))
                check(got in want, 'decision of %r for %r with %r' % (
                    p, req, data), sorted(want), got)
                got = build.decision_of(pdp.evaluate(build.o_request(req)))
                check(got in bare, 'decision of %r for %r alone' % (p, req),
                      sorted(bare), got)
                ctx.step()
            for r, q in pip.calls:
                check(r is o, 'query for another request', o, r)
                check(type(q) is build.lib().section['subject'][2],
                      'query for a designator of kind',
                      'SubjectAttributeDesignator', type(q).__name__)
            del pip.calls[:]
            unchanged(pip)
    ctx.state(len(pips) * len(reqs))


# -- failures ------------------------------------------------------------------------
def failures(ctx, job):
    bad = {'raises': None, 'str': 'v', 'strs': ['v'], 'none in list': [None],
           'int': 3, 'true': True, 'other type': 'other', 'mixed': 'mixed',
           'object': object(), 'dict': {'v': 1}}
    for name in bad:
        for own in ((), ('v',), ('v', 'w')):
            ctx.case('%s %r' % (name, own), failing, ctx, bad[name], own, name)


def failing(ctx, ret, own, name):
    L = build.lib()

    class H(L.CtxHandlerBase):
        def handlePEPRequest(self, pepRequest):
            pass

        def pipQuery(self, request, designator):
            if name == 'raises':
                raise KeyError('no')
            if name == 'other type':
                return [build.o_value(Val('anyURI', 'v'))]
            if name == 'mixed':
                return [build.o_value(Val('string', 'x')),
                        build.o_value(Val('anyURI', 'v'))]
            return ret
    a = (Attr(ID_A, 'string', None, own),) if own else ()
    for e in 'PD':
        p = Policy('p', ALGS[2], None, (Rule('r', e, target(subject=((Match(
            EQ, val('v'), Des('subject', ID_A, 'string', None, False)),),)), None),
            Rule('s', 'PD'[e == 'P'], None, None)))
        pdp = build.x_pdp(p)
        o = build.o_request(Request(((None, a),), (), (), ()))
        o.ctxHandler = H()
        got = build.decision_of(pdp.evaluate(o))
        check(got == 'I', 'decision with a failing information point', 'I', got)
        # and the next request is not affected
        good = build.o_request(Request(((None, a),), (), (), ()))
        want = spec.decide(p, Request(((None, a),), (), (), ()))
        got = build.decision_of(pdp.evaluate(good))
        check(got in want, 'decision afterwards', want, got)
        ctx.step()
    ctx.state()


# -- histories -------------------------------------------------------------------------
def history(ctx, job):
    """Evaluations of three requests, information changing in between."""
    ops = ['e0', 'e1', 'e2', 'v', 'w', '', 'vw', 'swap', 'x0', 'add']
    for h in shard(itertools.product(ops, repeat=4 if ctx.thorough else 3), job):
        ctx.case('-'.join(h), one_history, ctx, h)


def one_history(ctx, h):
    d = Des('subject', ID_A, 'string', None, False)
    p = Policy('p', ALGS[2], None, (
        Rule('r', 'P', target(subject=((Match(EQ, val('v'), d),),)), None),
        Rule('s', 'D', None, Apply(EQ, (val('w'), Apply(
            F1 + 'string-one-and-only', (d._replace(mbp=True),)))))))
    pdp = build.x_pdp(p)
    pips = [Pip({(ID_A, 'string', None): ()}, 'same'),
            Pip({(ID_A, 'string', None): ('v',)}, 'list')]
    hs = [handler(x) for x in pips]
    reqs = [Request(((None, ()),), (), (), ())] * 3
    os = [build.o_request(r) for r in reqs]
    which = [0, 1, None]
    os[0].ctxHandler, os[1].ctxHandler = hs
    for op in h + ('e0', 'e1', 'e2', 'e0'):
        if op[:1] == 'e':
            i = int(op[1])
            want = spec.decide(p, spec.Env(
                reqs[i], pip=None if which[i] is None else pips[which[i]].texts))
            got = build.decision_of(pdp.evaluate(os[i]))
            check(got in want, 'decision for request %d' % i, sorted(want), got)
            ctx.step()
        elif op == 'swap':
            os[0].ctxHandler, os[1].ctxHandler = (os[1].ctxHandler,
                                                  os[0].ctxHandler)
            which[0], which[1] = which[1], which[0]
        elif op == 'x0':
            os[0] = build.o_request(reqs[0])
            os[0].ctxHandler = hs[which[0]]
        elif op == 'add':
            a = Attr(ID_A, 'string', None, ('w',))
            os[2].subjects[0].attributes.append(build.o_attr(a))
            reqs[2] = Request(((None, reqs[2].subjects[0][1] + (a,)),), (), (),
                              ())
        else:
            pips[0].data[(ID_A, 'string', None)] = tuple(op)
        for x in pips:
            unchanged(x)
    ctx.state()


# -- sizes -----------------------------------------------------------------------------
def long(ctx, job):
    """Many supplied values; many queries by one and the same objects."""
    for n in (130, 300, 1100):
        own = tuple('v%d' % i for i in range(n))
        for vs, ps in ((own, ()), ((), own), (own, own[::-1]),
                       (own[::2], own), (own, own[::2]), (own[::2], own[1::2]),
                       (own[:1], own[1:]), (own[1:], own[:1])):
            for form in ('list', 'generator', 'same'):
                ctx.case('%d %d %d %s' % (n, len(vs), len(ps), form), one_bag,
                         ctx, vs, ps, 'string', None, form)
    for n in (1100, 2500):
        for form in ('list', 'tuple', 'generator', 'same'):
            ctx.case('queries %d %s' % (n, form), queries, ctx, n, form)


def queries(ctx, n, form):
    """Each request of a sequence has its own answers."""
    d = Des('subject', ID_A, 'string', None, False)
    od = build.o_expr(d)
    data = {}
    pip = Pip(data, form)
    h = handler(pip)
    reqs = []
    for i in range(n):
        o = build.o_request(Request(((None, (Attr(ID_B, 'string', None, (
            'b%d' % i,)),)),), (), (), ()))
        o.ctxHandler = h
        reqs.append(o)
    for turn in range(2):
        for i, o in enumerate(reqs):
            k = i if turn == 0 else n - 1 - i
            data[ID_A, 'string', None] = ('a%d' % k,) * (k % 3)
            got = sorted(v.value for v in od.evaluate(o))
            # equal values of the information point may count once
            want = {'a%d' % k} if k % 3 else set()
            check(set(got) == want and len(got) <= 2, 'bag %d' % i, want, got)
            check(len(pip.calls) == 1 and pip.calls[0][0] is o,
                  'queries of request %d' % i, 1, len(pip.calls))
            del pip.calls[:]
            del pip.given[:]
            ctx.step()
        reqs.reverse()
    for o in reqs[::97]:
        check(not [a for s in o.subjects for a in s.attributes
                   if a.attributeId != ID_B], 'request changed')
    ctx.state()


def run(ctx):
    globals()[base(ctx.job)](ctx, ctx.job)
