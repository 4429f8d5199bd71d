"""Extension functions and combining algorithms; the function registry."""
import itertools

from mc import build, spec
from mc.build import Node
from mc.core import Mismatch, check, observe, raises
from mc.pdpcheck import base, shard
from mc.spec import *

S1, S2 = F1 + 'string-equal', F2 + 'url-string-concatenate'
U1, U2 = F1 + 'string-normalize-space', F2 + 'string-substring-nothing'
X1, X2 = 'urn:mc:unknown:f', 'string-equal'
C1, C2 = 'urn:mc:custom:one', F1 + 'mc-custom'
STANDARD, UNKNOWN, CUSTOMS = (S1, S2), (U1, U2, X1, X2), (C1, C2)
MODULE = 'mc_custom_functions'


def classes():
    """Extension functions by tag: results tell them apart."""
    L = build.lib()
    out = {}
    for tag in 'AB':
        class Fn(L.AbstractFunction):
            FUNCTION_NS = 'urn:mc:custom:' + tag
            TAG = tag

            def evaluate(self, *inputs):
                return ('result of', self.TAG) + inputs
        out[tag] = Fn
    return out


# -- histories on a registry -------------------------------------------------------
def ops():
    out = [('get', i) for i in STANDARD + UNKNOWN + CUSTOMS]
    out += [('item', i) for i in (S1, U1, X1, C1)]
    out += [('in', C1), ('all', None)]
    out += [('load', C1, 'A'), ('load', C1, 'B'), ('load', C2, 'A'),
            ('load', C1, 'path'), ('load', S1, 'A'), ('load', S2, 'path'),
            ('load', STD_UNIMPLEMENTED, 'A'), ('load', C1, 'none'),
            ('load', C1, 'raise'), ('load', C2, 'notfn'), ('load', C1, 'nopath'),
            ('load', C1, 'badpath'), ('load', C1, 'nothing'), ('load', 5, 'A')]
    return out


STD_UNIMPLEMENTED = F1 + 'integer-add'


def history(ctx, job):
    import sys
    sys.path.insert(0, ctx.scratch)
    with open(ctx.scratch + '/%s.py' % MODULE, 'w') as f:
        f.write('''
from ndg.xacml.core.functions import AbstractFunction, FunctionClassFactoryInterface
class Fn(AbstractFunction):
    FUNCTION_NS = 'urn:mc:custom:path'
    TAG = 'path'
    def evaluate(self, *inputs):
        return ('result of', self.TAG) + inputs
class Factory(FunctionClassFactoryInterface):
    def __call__(self, identifier):
        return Fn
''')
    cl = classes()
    o = ops()
    n = 4 if ctx.thorough else 3
    small = [x for x in o if x[0] != 'item' and x[1] not in (U2, X2, 5)]
    hs = itertools.chain(*[itertools.product(o if k < 4 else small, repeat=k)
                           for k in range(n + 1)])
    for h in shard(hs, job):
        ctx.sample(repr(h))
        ctx.case(repr(h), hist, ctx, h, cl)


def do_load(fm, fid, what, cl):
    if what in cl:
        fm.load_custom_function(fid, lambda i: cl[what])
    elif what == 'path':
        fm.load_custom_function(fid, function_factory_path=MODULE + '.Factory')
    elif what == 'none':
        fm.load_custom_function(fid, lambda i: None)
    elif what == 'raise':
        fm.load_custom_function(fid, lambda i: 1 // 0)
    elif what == 'notfn':
        fm.load_custom_function(fid, lambda i: dict)
    elif what == 'nopath':
        fm.load_custom_function(fid, function_factory_path='no_such_module.F')
    elif what == 'badpath':
        fm.load_custom_function(fid, function_factory_path=MODULE + '.Nope')
    else:
        fm.load_custom_function(fid)


GOOD = ('A', 'B', 'path')


def hist(ctx, h, cl):
    from ndg.xacml.core.functions import FunctionMap
    fm = FunctionMap()
    model = {}
    for op in h:
        ctx.step()
        if op[0] == 'load':
            err = raises(do_load, fm, op[1], op[2], cl)
            ok = op[1] in CUSTOMS and op[2] in GOOD
            check((err is None) == ok, 'registration %r' % (op,), ok, repr(err))
            if ok:
                model[op[1]] = op[2]
        elif op[0] == 'all':
            fm.loadAllCore()
        elif op[0] == 'in':
            if op[1] in model:
                check(op[1] in fm, 'registered function not in the map')
        else:
            look(fm, op, model)
    for fid in STANDARD + UNKNOWN + CUSTOMS + (STD_UNIMPLEMENTED,):
        for how in ('get', 'item'):
            look(fm, (how, fid), model)
    ctx.outcome(repr(sorted(model.items())))
    ctx.state()


def look(fm, op, model):
    how, fid = op[:2]
    try:
        c = fm.get(fid) if how == 'get' else fm[fid]
    except Exception as e:
        c = e
    usable = isinstance(c, type)
    if fid in model:
        check(usable, 'registered function isn\'t found', model[fid], repr(c))
        got = c().evaluate(1, 2)
        check(got == ('result of', model[fid], 1, 2), 'function for %s' % fid,
              model[fid], got)
    elif fid in STANDARD:
        check(usable, 'standard function not found', fid, repr(c))
        s = lambda v, t='string': build.o_value(Val(t, v))
        if fid == S1:
            f = c()
            check(f.evaluate(s('a'), s('a')) is True and
                  f.evaluate(s('a'), s('b')) is False, 'string-equal', None,
                  repr(c))
        else:
            r = c().evaluate(s('a', 'anyURI'), s('b'))
            check(r.value == 'ab' and r.dataType == TYPE['anyURI'],
                  'url-string-concatenate', 'ab', r.value)
    else:
        check(not usable, 'function for an unknown identifier %s' % fid,
              'refused', repr(c))


# -- extension functions in policies ---------------------------------------------------
def impls():
    """tag -> (implementation, model): string x string -> boolean."""
    out = {'A': lambda a, b: len(a) == len(b), 'B': lambda a, b: len(a) != len(b)}
    return out


POPS = ('load A', 'load B', 'load none', 'load raise', 'parse', 'build', 'match')


def policies(ctx, job):
    n = 6 if ctx.thorough else 5
    for k in range(1, n + 1):
        for h in shard(itertools.product(POPS, repeat=k), job):
            if h[-1].startswith('load') or len(set(h) & set(POPS[4:])) == 0:
                continue
            ctx.case(' '.join(h), pol_case, ctx, h)


_serial = [0]


def pol_case(ctx, h):
    L = build.lib()
    _serial[0] += 1
    fid = 'urn:mc:policies:%d' % _serial[0]
    cur = None
    live = []
    im = impls()
    reqs = [request([attr('subject', 'ab')], (), [attr('action', v)])
            for v in ('x', 'xy')]
    for op in h:
        ctx.step()
        if op.startswith('load'):
            what = op[5:]
            if what in im:
                spec_model = im[what]

                class Fn(L.AbstractFunction):
                    FUNCTION_NS = fid
                    impl = staticmethod(spec_model)

                    def evaluate(self, a, b):
                        return self.impl(a.value, b.value)
                L.functionMap.load_custom_function(fid, lambda i, c=Fn: c)
                cur = what
            else:
                check(raises(L.functionMap.load_custom_function, fid,
                             {'none': lambda i: None,
                              'raise': lambda i: 1 // 0}[what]),
                      'failing registration didn\'t raise')
        else:
            if op == 'match':
                t = target(action=((Match(fid, val('ab'), des('action')),),))
                p = Policy('p', ALGS[0], t, (Rule('r', 'P', None, None),))
            else:
                p = Policy('p', ALGS[0], None, (Rule('r', 'P', None, Apply(
                    fid, (val('ab'), Apply(F1 + 'string-one-and-only',
                                           (des('action'),))))),))
            try:
                pdp = build.x_pdp(p) if op != 'build' else build.o_pdp(p)
            except Exception as e:
                check(cur is None, 'policy with a registered function rejected',
                      cur, repr(e))
                continue
            check(cur is not None, 'policy with an unregistered function accepted')
            live.append((pdp, cur, p))
    for pdp, tag, p in live:
        for r, v in zip(reqs, ('x', 'xy')):
            d = build.decision_of(pdp.evaluate(build.o_request(r)))
            want = {'P' if im[t]('ab', v) else 'N' for t in {tag, cur}}
            check(d in want, 'decision with extension function', want, d)
            ctx.outcome(d)
    ctx.state()


def values(ctx, job):
    """Extension functions yielding values and bags, combined with standard
    ones."""
    from mc import custom
    L = build.lib()
    from ndg.xacml.utils import TypedList
    s = lambda v: Val('string', v)

    def o_bag(*vs):
        b = TypedList(L.valueClass(TYPE['string']))
        for v in vs:
            b.append(build.o_value(s(v)))
        return b
    up = custom.register('v-upper', lambda a: build.o_value(s(a.value.upper())),
                         lambda a: s(a.value.upper()))
    pair = custom.register('v-pair', lambda a, b: o_bag(a.value, b.value),
                           lambda a, b: BagV('string', (a.value, b.value)))
    size = custom.register('v-size', lambda b: build.o_value(
        Val('integer', len(b))), lambda b: Val('integer', len(b.items)))
    uri = custom.register('v-uri', lambda a: build.o_value(
        Val('anyURI', a.value)), lambda a: Val('anyURI', a.value))
    yes = custom.register('v-any', lambda *a: len(a) > 1, lambda *a: len(a) > 1)
    oo = lambda b: Apply(F1 + 'string-one-and-only', (b,))
    A = lambda f, *a: Apply(f, a)
    vs = [s('x'), s('X'), oo(des('action')), A(up, s('x')),
          A(up, oo(des('action'))), A(up, A(up, s('y'))), A(uri, s('x')),
          A(F2 + 'string-concatenate', A(up, s('x')), s('y')), A(up, s('xy'))]
    bs = [des('action')] + [A(pair, a, b) for a in vs[:5] for b in vs[:5]] + [
        A(F1 + 'string-bag', *c) for c in itertools.product(vs, repeat=2)]
    exprs = [A(S1, a, b) for a in vs for b in vs]
    exprs += [A(F1 + 'string-at-least-one-member-of', a, b)
              for a in bs for b in bs[:12]]
    exprs += [A(yes, *c) for k in range(3) for c in itertools.product(vs, repeat=k)]
    exprs += [A(F1 + 'integer-equal', A(size, b), A(size, c))
              for b in bs[:30] for c in bs[:6]]
    exprs += [A(F1 + 'and', A(yes, a, b), A(S1, a, b)) for a in vs for b in vs]
    reqs = [request((), (), [attr('action', *v)])
            for v in (('x',), ('X',), ('x', 'y'), ())]
    ros = [build.o_request(r) for r in reqs]
    for i, e in enumerate(exprs):
        ctx.case('%d' % i, value_case, ctx, e, reqs, ros)


def value_case(ctx, e, reqs, ros):
    p = Policy('p', ALGS[0], None, (Rule('r', 'P', None, e),))
    for pdp in (build.x_pdp(p), build.o_pdp(p)):
        for r, ro in zip(reqs, ros):
            d = build.decision_of(pdp.evaluate(ro))
            want = decide(p, r)
            check(d in want, repr(e), sorted(want), d)
            ctx.outcome(d)
            ctx.step()
    ctx.state(len(reqs))


# -- combining algorithms ----------------------------------------------------------------
def algs(ctx, job):
    """Combining algorithms of the user: called with the children in order and
    the request, their result is the decision; other policies are unaffected."""
    L = build.lib()
    from ndg.xacml.core.rule_combining_alg import (RuleCombiningAlgInterface,
                                                   RuleCombiningAlgClassFactory)
    from ndg.xacml.core.policy_combining_alg import (
        PolicyCombiningAlgInterface, PolicyCombiningAlgClassFactory)
    for kind, iface, factory in (
            ('rule', RuleCombiningAlgInterface, RuleCombiningAlgClassFactory),
            ('policy', PolicyCombiningAlgInterface,
             PolicyCombiningAlgClassFactory)):
        class Last(iface):
            def evaluate(self, children, context):
                self.seen.append((tuple(children), context))
                out = L.Decision.NOT_APPLICABLE
                for c in children:
                    d = c.evaluate(context)
                    if d != L.Decision.NOT_APPLICABLE:
                        out = d
                return out

        class Fails(iface):
            def evaluate(self, children, context):
                raise ValueError('x')

        class Fixed(iface):
            def evaluate(self, children, context):
                return L.Decision.PERMIT
        std = build.alg_id(kind, ALGS[0])
        m = {'urn:mc:last': Last, 'urn:mc:fails': Fails, 'urn:mc:fixed': Fixed,
             'urn:mc:bad': dict, 'urn:mc:ni': NotImplemented, std: Fixed}
        k = 4 + ctx.thorough
        for n in range(k + 1):
            for v in itertools.product('PDIN', repeat=n):
                ctx.case('%s %s' % (kind, ''.join(v)), alg_case, ctx, kind,
                         v, factory, m, Last, std)


BADCOND = Apply(S1, (val('a'), Val('anyURI', 'a')))


def child(kind, d, i):
    rule = Rule('r%d' % i, 'P' if d in 'NI' else d,
                target(action=((simple_match('action', 'no'),),)) if d == 'N'
                else None, BADCOND if d == 'I' else None)
    if kind == 'rule':
        return build.o_rule(rule)
    return build.o_policy(Policy('p%d' % i, ALGS[0], None, (rule,)))


def alg_case(ctx, kind, v, factory, m, Last, std):
    L = build.lib()
    Last.seen = []
    req = build.o_request(request((), (), [attr('action', 'x')]))
    kids = [child(kind, d, i) for i, d in enumerate(v)]

    def holder(f, alg):
        if kind == 'rule':
            p = L.Policy(ruleCombiningAlgFactory=f) if f else L.Policy()
            p.ruleCombiningAlgId = alg
        else:
            p = L.PolicySet(policyCombiningAlgFactory=f) if f else L.PolicySet()
            p.policyCombiningAlgId = alg
        for c in kids:
            (p.rules if kind == 'rule' else p.policies).append(c)
        return p
    f = factory(map=m)
    last = [d for d in v if d != 'N']
    before = holder(None, std)
    wants = {'urn:mc:last': last[-1] if last else 'N', 'urn:mc:fails': 'I',
             'urn:mc:fixed': 'P', std: 'P'}
    for alg, want in sorted(wants.items()):
        p = holder(f, alg)
        pdp = L.PDP(p)
        for _ in range(2):
            d = build.decision_of(pdp.evaluate(req))
            check(d == want, 'custom combining algorithm %s on %s' % (alg, v),
                  want, d)
            ctx.step()
        if alg == 'urn:mc:last':
            check(len(Last.seen) == 2 and all(
                list(c) == kids and x is req for c, x in Last.seen),
                'children handed to the algorithm', 2, len(Last.seen))
        for bad in ('urn:mc:bad', 'urn:mc:ni', 'urn:mc:other', '', std + 'x'):
            attr_name = ('ruleCombiningAlgId' if kind == 'rule' else
                         'policyCombiningAlgId')
            check(raises(setattr, p, attr_name, bad) is not None,
                  'unusable algorithm %r accepted' % bad)
            d = build.decision_of(pdp.evaluate(req))
            check(d == want, 'rejected algorithm changed the decision', want, d)
        ctx.outcome(want)
    comb = spec.combine_rules if kind == 'rule' else spec.combine_policies
    arg = [(d, 'P' if d in 'NI' else d) for d in v] if kind == 'rule' else list(v)
    want = comb(ALGS[0], arg)
    for p in (before, holder(None, std)):
        d = build.decision_of(L.PDP(p).evaluate(req))
        check(d == want, 'standard algorithm after a custom one', want, d)
        for alg in ('urn:mc:last', 'urn:mc:fixed'):
            name = 'ruleCombiningAlgId' if kind == 'rule' else 'policyCombiningAlgId'
            check(raises(setattr, p, name, alg) is not None,
                  'algorithm of another policy accepted')
    ctx.state()


# -- sizes -----------------------------------------------------------------------------
def long(ctx, job):
    """That many extension functions: each identifier means its own."""
    for n in (30, 130, 300, 1100):
        for order in (0, 1, 2):
            ctx.case('functions %d %d' % (n, order), crowd, ctx, n, order)


def crowd(ctx, n, order):
    L = build.lib()
    _serial[0] += 1
    tag = 'urn:mc:crowd:%d:' % _serial[0]
    std = {f: L.functionMap[f] for f in (F1 + 'string-equal', F1 + 'and', F1 + 'not',
                                         F1 + 'string-one-and-only')}

    def mk(i):
        class Fn(L.AbstractFunction):
            FUNCTION_NS = tag + str(i)

            def evaluate(self, a, b):
                return a.value == b.value and a.value == 'v%d' % i
        return Fn
    cls = [mk(i) for i in range(n)]
    todo = list(range(n))
    if order == 1:
        todo.reverse()
    elif order == 2:
        todo = todo[::2] + todo[1::2]
    reqs = {}

    def pol(i):
        return Policy('p', ALGS[0], None, (Rule('r', 'P', None, Apply(
            tag + str(i), (val('v%d' % i), Apply(F1 + 'string-one-and-only', (
                des('action'),))))),))

    def decided(pdp, i, j):
        ro = reqs.get(j)
        if ro is None:
            ro = reqs[j] = build.o_request(request(
                (), (), [attr('action', 'v%d' % j)]))
        d = build.decision_of(pdp.evaluate(ro))
        check(d == 'PN'[i != j], 'decision by extension function %d of %d on '
              'value %d' % (i, n, j), 'PN'[i != j], d)
        ctx.step()
    early = {}
    for k, i in enumerate(todo):
        L.functionMap.load_custom_function(tag + str(i), lambda f, c=cls[i]: c)
        if k % 37 == 0:
            early[i] = build.o_pdp(pol(i))
            decided(early[i], i, i)
        check(raises(lambda: L.functionMap[tag + str(i) + 'x']),
              'an identifier that was not registered')
    for i in range(n):
        check(L.functionMap[tag + str(i)] is cls[i], 'function %d' % i,
              cls[i].FUNCTION_NS, getattr(L.functionMap[tag + str(i)],
                                          'FUNCTION_NS', None))
        pdp = early.get(i) or (build.o_pdp if i % 3 else build.x_pdp)(pol(i))
        decided(pdp, i, i)
        decided(pdp, i, (i + 1) % n)
    for f, c in std.items():
        check(L.functionMap[f] is c, 'standard function %s' % f)
    ctx.state()
    ctx.outcome('%d functions' % n)


# -- every standard identifier ----------------------------------------------------------
ALL_TYPES = ('string', 'boolean', 'integer', 'double', 'time', 'date', 'dateTime',
             'anyURI', 'hexBinary', 'base64Binary', 'dayTimeDuration',
             'yearMonthDuration', 'x500Name', 'rfc822Name')
FAMILIES = ('equal', 'one-and-only', 'bag', 'at-least-one-member-of')


def standard_ids():
    """identifier -> True (implemented), False (not), None (partly)"""
    out = {}
    for t in ALL_TYPES:
        for f in FAMILIES:
            out[F1 + t + '-' + f] = None if t.endswith('Binary') else True
        for f in ('bag-size', 'is-in', 'intersection', 'union', 'subset',
                  'set-equals'):
            out[F1 + t + '-' + f] = False
    for t in ('integer', 'double'):
        for f in ('add', 'subtract', 'multiply', 'divide', 'abs'):
            out[F1 + t + '-' + f] = False
    for t in ('integer', 'double', 'string', 'time', 'date', 'dateTime'):
        for f in ('greater-than', 'greater-than-or-equal', 'less-than',
                  'less-than-or-equal'):
            out[F1 + t + '-' + f] = False
    for t, f, d in (('dateTime', 'add', 'dayTime'), ('dateTime', 'add', 'yearMonth'),
                    ('dateTime', 'subtract', 'dayTime'),
                    ('dateTime', 'subtract', 'yearMonth'),
                    ('date', 'add', 'yearMonth'), ('date', 'subtract', 'yearMonth')):
        out['%s%s-%s-%sDuration' % (F1, t, f, d)] = False
    for f in ('integer-mod', 'floor', 'string-normalize-space',
              'string-normalize-to-lower-case', 'double-to-integer',
              'integer-to-double', 'or', 'n-of', 'any-of', 'all-of', 'any-of-any',
              'all-of-any', 'any-of-all', 'all-of-all', 'map', 'xpath-node-count'):
        out[F1 + f] = False
    out[F2 + 'time-in-range'] = out[F2 + 'uri-string-concatenate'] = False
    for f in ('round', 'x500Name-match', 'rfc822Name-match', 'xpath-node-equal',
              'xpath-node-match'):
        out[F1 + f] = None
    for f in ('and', 'not', 'string-regexp-match'):
        out[F1 + f] = True
    for f in ('string-concatenate', 'url-string-concatenate',
              'anyURI-regexp-match', 'ipAddress-regexp-match',
              'dnsName-regexp-match', 'rfc822Name-regexp-match',
              'x500Name-regexp-match'):
        out[F2 + f] = True
    return out


def standard(ctx, job):
    from ndg.xacml.core.functions import FunctionMap
    L = build.lib()
    cl = classes()
    loaded = FunctionMap()
    loaded.loadAllCore()
    used = FunctionMap()
    ids = standard_ids()
    for i in sorted(ids):
        observe(used.get, i)
    maps = [('fresh', FunctionMap()), ('every look-up done', used),
            ('all loaded', loaded), ('shared', L.functionMap)]
    for i in sorted(ids):
        for lab, fm in maps:
            ctx.sample('%s %s' % (lab, i))
            ctx.case('%s %s' % (lab, i), std_case, ctx, i, ids[i], fm, lab, cl)


def std_case(ctx, i, impl, fm, lab, cl):
    L = build.lib()

    def applied():
        a = L.Apply()
        a.functionMap = fm
        a.functionId = i
        return a

    def read():
        n = build.policy_node(Policy('p', ALGS[0], None, (Rule(
            'r', 'P', None, Apply(i, ())),)))
        import io
        return L.Policy.fromSource(io.BytesIO(build.to_bytes(n)), L.ReaderFactory)
    for k in range(2):
        for what, how in (('set', applied), ('read', read)):
            e = raises(how)
            if impl is not None:
                check((e is None) == impl, 'standard function %s (%s, %s)' % (
                    i, lab, what), 'accepted' if impl else 'refused', repr(e))
            ctx.step()
        if impl:
            c = fm.get(i)
            check(c is fm[i] and c.FUNCTION_NS == i, 'function of %s' % i, i,
                  repr(c))
        for tag in 'AB':
            e = raises(do_load, fm, i, tag, cl)
            check(e is not None, '%s registered for another function (%s)' % (
                i, lab), 'refused', None)
            ctx.step()
        if impl:
            check(fm.get(i) is c and fm[i] is c, 'function after a refused '
                  'registration', repr(c), repr(fm.get(i)))
    ctx.outcome('implemented' if impl else 'unclear' if impl is None else
                'refused')
    ctx.state()


def run(ctx):
    globals()[base(ctx.job)](ctx, ctx.job)
