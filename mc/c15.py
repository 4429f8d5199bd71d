"""Concurrent use: every interleaving up to a preemption bound."""
import io
import itertools
import os

from mc import build, sched, spec
from mc.core import Mismatch, check, observe
from mc.pdpcheck import base, shard
from mc.spec import *

S = lambda v: Val('string', v)
EQ = F1 + 'string-equal'
RX = F1 + 'string-regexp-match'
A = lambda f, *a: Apply(f, a)
OO = lambda d: A(F1 + 'string-one-and-only', d)
ACT, SUB, RES = des('action'), des('subject'), des('resource')
NO = val('no')
_serial = itertools.count()


def m(cat, v, fn=EQ):
    return Match(fn, val(v), des(cat))


def req(s, r, a):
    return request([attr('subject', *s)], [attr('resource', *r)],
                   [attr('action', *a)])


# -- policies; %N stands for a text never seen before in the process -------------------
def policies():
    r = lambda id, e, t=None, c=None: Rule(id, e, t, c)
    out = {}
    out['target'] = (Policy('p', ALGS[1], target(
        ((m('subject', 'alice'),), (m('subject', 'bob'),)), (),
        ((m('action', 'read'),),)), (
            r('r1', 'D', target((), ((m('resource', 'x'),),))), r('r2', 'P'))),
        req(['alice'], ['x'], ['read']), req(['bob'], ['y'], ['read']))
    out['regexp'] = (Policy('p', ALGS[0], target((), ((m(
        'resource', '%Na.*', RX),),)), (
            r('r1', 'P', None, A(RX, S('%Nb+'), OO(SUB))),)),
        req(['%Nbb'], ['%Naa'], ['read']), req(['%Nc'], ['%Na'], ['read']))
    out['bags'] = (Policy('p', ALGS[2], None, (
        r('r1', 'D', None, A(F1 + 'not', A(
            F1 + 'string-at-least-one-member-of', SUB,
            A(F1 + 'string-bag', S('a'), S('b'))))),
        r('r2', 'P', None, A(EQ, A(F2 + 'string-concatenate', OO(RES), OO(ACT)),
                             S('xread'))))),
        req(['a', 'c'], ['x'], ['read']), req(['c'], ['x'], ['write']))
    out['fails'] = (Policy('p', ALGS[0], None, (
        r('r1', 'D', None, A(EQ, OO(des('subject', mbp=True)), S('x'))),
        r('r2', 'P', target((), (), ((m('action', 'read'),),))))),
        req([], ['x'], ['read']), req(['y'], ['x'], ['read']))
    out['one'] = (Policy('p', ALGS[0], None, (
        r('r', 'P', target((), (), ((m('action', 'read'),),))),)),
        req(['a'], ['x'], ['read']), req(['a'], ['x'], ['write']))
    out['rx'] = (Policy('p', ALGS[0], None, (
        r('r', 'P', None, A(RX, S('%Na'), OO(ACT))),)),
        req(['a'], ['x'], ['%Nab']), req(['a'], ['x'], ['%Nb']))
    out['set'] = (PolicySet('s', ALGS[1], None, (
        Policy('p1', ALGS[0], target(((m('subject', 'a'),),)), (r('r', 'D'),)),
        Policy('p2', ALGS[0], target(((m('subject', 'b'),),)), (r('r', 'P'),)))),
        req(['a'], ['x'], ['read']), req(['b'], ['x'], ['read']))
    return out


def fresh(o, tag):
    """Replace %N in every string of an abstract policy or request."""
    if isinstance(o, str):
        return o.replace('%N', tag)
    if isinstance(o, tuple) and hasattr(o, '_fields'):
        return type(o)(*[fresh(x, tag) for x in o])
    if isinstance(o, tuple):
        return tuple(fresh(x, tag) for x in o)
    return o


# -- scenarios: () -> (thread functions, verify(results)) ---------------------------------
def decisions(ctx, wants, key):
    def verify(results):
        got = []
        for i, (k, v) in enumerate(results):
            if k == 'raise':
                raise Mismatch('thread %d raised %s: %s' % (
                    i, type(v).__name__, v), None, None)
            if wants[i] is None:
                got.append('-')
                continue
            d = build.decision_of(v)
            check(d in wants[i], 'decision of thread %d' % i, sorted(wants[i]),
                  d)
            got.append(d)
        ctx.outcome(key + ' ' + ''.join(got))
    return verify


def evaluations(ctx, name, kind):
    """Two threads evaluating; kind: same PDP, same request object, other PDP."""
    p0, q0, q1 = policies()[name]
    cold = '%N' in repr(p0)
    warm = None if cold or kind.endswith('cold') else build.o_pdp(p0)

    def scenario():
        tag = 't%d' % next(_serial) if cold else ''
        p, a, b = fresh(p0, tag), fresh(q0, tag), fresh(q1, tag)
        pdp = warm or build.o_pdp(p)
        if kind.startswith('samereq'):
            b = a
        ra = build.o_request(a)
        rb = ra if kind.startswith('samereq') else build.o_request(b)
        pdp2, p2 = pdp, p
        if kind.startswith('other'):
            p2 = p._replace(alg=ALGS[2])
            if isinstance(p2, Policy):
                p2 = p2._replace(rules=tuple(reversed(p2.rules)))
            pdp2 = build.o_pdp(p2)
        wants = [decide(p, a), decide(p2, b)]
        return ([lambda: pdp.evaluate(ra), lambda: pdp2.evaluate(rb)],
                decisions(ctx, wants, name + kind))
    return scenario


def swap(ctx):
    """One thread evaluates while another replaces the policy."""
    t = lambda a: target((), (), ((m('action', a),),))
    p = Policy('p', ALGS[1], t('read'), (
        Rule('r', 'P', target(((m('subject', 'a'),),)), None), Rule('s', 'D', None, None)))
    q = Policy('q', ALGS[0], t('write'), (Rule('r', 'P', None, None),
                                          Rule('t', 'D', t('x'), None)))
    po, qo = build.o_policy(p), build.o_policy(q)
    rq = req(['b'], ['x'], ['read'])
    ro = build.o_request(rq)
    want = decide(p, rq) | decide(q, rq)

    def scenario():
        pdp = build.lib().PDP(po)

        def other():
            pdp.policy = qo
            return pdp.evaluate(ro)
        return ([lambda: pdp.evaluate(ro), other],
                decisions(ctx, [want, decide(q, rq)], 'swap'))
    return scenario


def pip(ctx):
    """Information point attached to the requests of both threads."""
    L = build.lib()

    class Pip(L.CtxHandlerBase):
        def handlePEPRequest(self, r):
            raise NotImplementedError()

        def pipQuery(self, context, designator):
            return [build.o_value(S('role-' + tags[id(context)]))]
    h, tags = Pip(), {}
    p = Policy('p', ALGS[0], None, (Rule('r', 'P', None, A(
        F1 + 'string-at-least-one-member-of', des('subject', 'role'),
        A(F1 + 'string-bag', S('role-a')))),))
    pdp = build.o_pdp(p)
    def scenario():
        rs = []
        for tag in 'ab':
            o = build.o_request(req(['x'], ['y'], ['z']))
            tags[id(o)] = tag
            o.ctxHandler = h
            rs.append(o)
        return ([lambda: pdp.evaluate(rs[0]), lambda: pdp.evaluate(rs[1])],
                decisions(ctx, [{'P'}, {'N'}], 'pip'))
    return scenario


def selector(ctx):
    L = build.lib()
    p = Policy('p', ALGS[0], None, (Rule('r', 'P', None, A(
        F1 + 'string-at-least-one-member-of',
        Sel('//Resource/ResourceContent/v', 'string', False),
        A(F1 + 'string-bag', S('x')))),))
    pdp = build.o_pdp(p)

    def scenario():
        rs = []
        for v in 'xy':
            o = build.o_request(req(['s'], [v], ['a']))
            o.attributeSelector = L.EtreeXPathSelector(L.ET.fromstring(
                '<Request><Resource><ResourceContent><v>%s</v></ResourceContent>'
                '</Resource></Request>' % v))
            rs.append(o)
        return ([lambda: pdp.evaluate(rs[0]), lambda: pdp.evaluate(rs[1])],
                decisions(ctx, [{'P'}, {'N'}], 'selector'))
    return scenario


def loads(ctx, kind):
    """Both threads load a policy document."""
    L = build.lib()
    eq = lambda a, b: A(EQ, S(a), S(b))
    docs = [Policy('p', ALGS[0], target((), (), ((m('action', 'read'),),)), (
        Rule('r', 'P', None, eq('a', 'a')),)),
            PolicySet('s', ALGS[1], None, (Policy('p', ALGS[2], None, (
                Rule('r', 'D', None, None),)), PolicyRef('p')))]
    if kind == 'same':
        docs[1] = docs[0]
    bad = kind == 'bad'
    if bad:
        docs[1] = PolicySet('s', ALGS[1], None, (PolicyRef('p'),))
    texts = [build.policy_bytes(d) for d in docs]
    wants = [docs[0], docs[1] if kind == 'same' or bad else docs[1]._replace(
        children=(docs[1].children[0],) * 2)]

    def scenario():
        def load(t):
            f = L.LocalPolicyFinder()
            return L.PDP.fromPolicySource(io.BytesIO(t), L.ReaderFactory, f)

        def verify(results):
            for i, (k, v) in enumerate(results):
                if i == 1 and bad:
                    check(k == 'raise', 'dangling reference accepted')
                    continue
                if k == 'raise':
                    raise Mismatch('thread %d raised %r' % (i, v), None, None)
                got = build.a_policy(v.policy)
                check(got == wants[i], 'policy loaded by thread %d' % i,
                      repr(wants[i]), repr(got))
            ctx.outcome('loads ' + kind)
        return [lambda: load(texts[0]), lambda: load(texts[1])], verify
    return scenario


def requests(ctx, kind):
    """Both threads read (or write) a request document."""
    L = build.lib()
    rs = [req(['a', 'b'], ['x'], ['read']),
          Request(((ACCESS_SUBJECT, (attr('subject', 'c', type='anyURI'),)),),
                  ((None, (attr('resource', 'y', issuer='i'),)),),
                  (attr('action', 'w'),), ())]
    texts = [build.request_bytes(r) for r in rs]
    objs = [build.o_request(r) for r in rs]

    def norm(r):
        return r._replace(environment=r.environment or None)

    def scenario():
        def read(t):
            return L.RequestElementTree.fromXML(L.ET.fromstring(t))

        def write(o):
            return read(L.ET.tostring(L.RequestElementTree.toXML(o)))

        def verify(results):
            for i, (k, v) in enumerate(results):
                if k == 'raise':
                    raise Mismatch('thread %d raised %r' % (i, v), None, None)
                got = build.a_request(v)
                check(norm(got) == norm(rs[i]), 'request of thread %d' % i,
                      repr(rs[i]), repr(got))
            ctx.outcome('requests ' + kind)
        return [lambda: (read(texts[0]) if kind == 'read' else write(objs[0])),
                lambda: (write(objs[1]) if kind == 'write' else
                         read(texts[1]))], verify
    return scenario


def registry(ctx, kind):
    """Look-ups and registrations on a fresh function map."""
    from ndg.xacml.core.functions import FunctionMap
    L = build.lib()

    class Fn(L.AbstractFunction):
        FUNCTION_NS = 'urn:mc:f'

        def evaluate(self, *a):
            return True
    ids = {'equal': (EQ, EQ), 'two': (EQ, F1 + 'string-bag'),
           'unknown': (F1 + 'integer-add', EQ), 'custom': (EQ, 'urn:mc:f'),
           'customs': ('urn:mc:g', 'urn:mc:f')}[kind]

    def scenario():
        fm = FunctionMap()

        def use(fid):
            if fid.startswith('urn:mc'):
                fm.load_custom_function(fid, lambda i: Fn)
            return [fm.get(fid), fm[fid]]

        def verify(results):
            for i, (k, v) in enumerate(results):
                if k == 'raise':
                    raise Mismatch('thread %d raised %r' % (i, v), None, None)
            for fid, (k, v) in zip(ids, results):
                for c in v + [fm[fid]]:
                    if fid.startswith('urn:mc'):
                        check(c is Fn, 'registered function', 'Fn', repr(c))
                    elif fid.endswith('add'):
                        check(c is NotImplemented, 'unimplemented', None, repr(c))
                    else:
                        check(isinstance(c, type) and issubclass(
                            c, L.AbstractFunction), 'function', fid, repr(c))
                        check(c.TYPE is L.valueClass(TYPE['string']), 'type',
                              None, repr(c.TYPE))
            ctx.outcome('registry ' + kind)
        return [lambda: use(ids[0]), lambda: use(ids[1])], verify
    return scenario


def evalload(ctx):
    """One thread evaluates, the other loads another policy using the same
    functions."""
    L = build.lib()
    p, a, _ = policies()['target']
    pdp, ro = build.o_pdp(p), build.o_request(a)
    q = Policy('q', ALGS[0], None, (Rule('r', 'D', None, A(EQ, S('a'), S('b'))),))
    text = build.policy_bytes(q)
    want = decide(p, a)

    def scenario():
        def load():
            return L.PDP.fromPolicySource(io.BytesIO(text), L.ReaderFactory,
                                          L.LocalPolicyFinder())

        def verify(results):
            for i, (k, v) in enumerate(results):
                if k == 'raise':
                    raise Mismatch('thread %d raised %r' % (i, v), None, None)
            d = build.decision_of(results[0][1])
            check(d in want, 'decision', sorted(want), d)
            check(build.a_policy(results[1][1].policy) == q, 'policy loaded')
            ctx.outcome('evalload')
        return [lambda: pdp.evaluate(ro), load], verify
    return scenario


def scenarios(ctx):
    out = []
    for name in sorted(policies()):
        for kind in ('same', 'samereq', 'other', 'same cold'):
            if kind == 'same cold' and name == 'regexp':
                continue
            out.append(('%s/%s' % (name, kind), evaluations, name, kind))
    out += [('swap', swap), ('pip', pip), ('selector', selector),
            ('evalload', evalload)]
    out += [('registry/' + k, registry, k) for k in
            ('equal', 'two', 'unknown', 'custom', 'customs')]
    out += [('loads/' + k, loads, k) for k in ('different', 'same', 'bad')]
    out += [('requests/' + k, requests, k) for k in ('read', 'write', 'mixed')]
    return out


def explore(ctx, job, opcodes, bound, only=None):
    s = sched.Scheduler(opcodes)
    for sc in scenarios(ctx):
        if only and not sc[0].startswith(only):
            continue
        scenario = sc[1](ctx, *sc[2:])
        for fn in scenario()[0]:        # modules imported outside the scheduler
            observe(fn)
        try:
            n = sched.counts(s, scenario)
            b = bound(sc[0], n)
        except Mismatch as e:
            ctx.case(sc[0] + ' sequential', again, e)
            continue
        ctx.notes['%s points' % sc[0]] = '%s, bound %d' % (n, b)
        for sch in shard(sched.two(n[0], n[1], b), job):
            key = '%s %s' % (sc[0], sch)
            ctx.sample(key)
            ctx.case(key, one, ctx, s, scenario, sch)
    ctx.notes['threads that blocked'] = s.blocked


def again(e):
    raise e


def one(ctx, s, scenario, sch):
    fns, verify = scenario()
    res, n = s.execute(fns, sch)
    verify(res)
    ctx.state()
    ctx.step(sum(n))


def lines(ctx, job):
    """Line granularity; two preemptions where that's feasible."""
    top = 500000 if ctx.thorough else 12000
    deep = ('rx/same',) if not ctx.thorough and ctx.mode == 'lxml' else ()
    explore(ctx, job, False, lambda name, n: 2 if n[0] * n[1] * 2 <= top or
            name in deep else 1)


def opcodes(ctx, job):
    top = 500000 if ctx.thorough else 0
    few = ('one/same', 'rx', 'bags/samereq', 'set/same cold', 'swap', 'pip',
           'selector', 'registry', 'requests')
    explore(ctx, job, True, lambda name, n: 2 if n[0] * n[1] * 2 <= top else 1,
            None if ctx.thorough else few)


def triple(ctx, job):
    """Three threads on one decision point."""
    s = sched.Scheduler()
    for name in sorted(policies()):
        p0, q0, q1 = policies()[name]

        def scenario():
            tag = 'u%d' % next(_serial) if '%N' in repr(p0) else ''
            p, a, b = fresh(p0, tag), fresh(q0, tag), fresh(q1, tag)
            pdp = build.o_pdp(p)
            ros = [build.o_request(x) for x in (a, b, a)]
            w = [decide(p, a), decide(p, b), decide(p, a)]
            return ([lambda r=r: pdp.evaluate(r) for r in ros],
                    decisions(ctx, w, 'triple ' + name))
        n = sched.counts(s, scenario)
        ctx.notes['%s points' % name] = repr(n)
        for sch in shard(sched.three(n, 1), job):
            ctx.case('triple %s %s' % (name, sch), one, ctx, s, scenario, sch)


def run(ctx):
    globals()[base(ctx.job)](ctx, ctx.job)
