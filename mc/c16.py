"""Collections only ever hold elements of their kind, as a plain list would."""
import collections
import itertools

from mc import build
from mc.core import Mismatch, check
from mc.pdpcheck import base, shard


class Stop(Exception):
    """raised by an iterator half way"""


def broken(items):
    for i in items:
        yield i
    raise Stop()


class Get(object):
    """only iterable through __getitem__"""
    def __init__(self, items):
        self.items = items

    def __getitem__(self, i):
        return self.items[i]


# every way to hand over several items: name -> (make, fails with)
ITERS = [
    ('list', lambda x: list(x)),
    ('tuple', lambda x: tuple(x)),
    ('gen', lambda x: (i for i in x)),
    ('getitem', lambda x: Get(list(x))),
    ('broken', broken),
]


def typed(items, ok):
    return all(isinstance(i, ok) for i in items)


class Op(object):
    """name: for messages; real(l) and model(l): do it; bad: is an element of
    another type involved"""

    def __init__(self, name, do, bad=False, fails=False, self_=False):
        self.name, self.do, self.bad, self.fails = name, do, bad, fails

    def __repr__(self):
        return self.name


def setitem(l, i, v):
    l[i] = v


def delitem(l, i):
    del l[i]


def iadd(l, v):
    m = l
    m += v
    check(m is l, '+= made another list')


def imul(l, n):
    m = l
    m *= n
    check(m is l, '*= made another list')


def ops(items, ok, small=False):
    """All operations with arguments out of items (list of (label, object)).
    Every item may be of the element type or not."""
    out = []
    isbad = lambda x: not isinstance(x, ok)
    idx = (0, 1, -1, 5) if not small else (0, -1, 5)
    for lab, x in items:
        b = isbad(x)
        out.append(Op('append(%s)' % lab, lambda l, x=x: l.append(x), b))
        for i in idx:
            out.append(Op('insert(%d,%s)' % (i, lab),
                          lambda l, i=i, x=x: l.insert(i, x), b))
            out.append(Op('[%d]=%s' % (i, lab),
                          lambda l, i=i, x=x: setitem(l, i, x), b))
        out.append(Op('remove(%s)' % lab, lambda l, x=x: l.remove(x)))
    seqs = [()] + [(a,) for a in items] + list(itertools.product(items, items))
    slices = [slice(None), slice(0, 1), slice(1, None), slice(None, None, 2),
              slice(None, None, -1), slice(5, 9), slice(1, 1)]
    if small:
        slices = slices[:5:2]
    for seq in seqs:
        lab = '+'.join(a[0] for a in seq)
        xs = [a[1] for a in seq]
        b = any(isbad(x) for x in xs)
        for form, mk in (ITERS if not small else ITERS[::2]):
            f = form == 'broken'
            n = '%s(%s)' % (form, lab)
            out.append(Op('extend ' + n,
                          lambda l, mk=mk, xs=xs: l.extend(mk(xs)), b, f))
            out.append(Op('+= ' + n,
                          lambda l, mk=mk, xs=xs: iadd(l, mk(xs)), b, f))
            if form in ('list', 'gen', 'broken'):
                for s in slices:
                    out.append(Op(
                        '[%s:%s:%s]= %s' % (s.start, s.stop, s.step, n),
                        lambda l, s=s, mk=mk, xs=xs: setitem(l, s, mk(xs)),
                        b, f))
    out.append(Op('extend self', lambda l: l.extend(l)))
    out.append(Op('+= self', lambda l: iadd(l, l)))
    out.append(Op('[:]= self', lambda l: setitem(l, slice(None), l)))
    out.append(Op('[1:]= self', lambda l: setitem(l, slice(1, None), l)))
    out.append(Op('*= 2', lambda l: imul(l, 2)))
    out.append(Op('*= 0', lambda l: imul(l, 0)))
    out.append(Op('reverse', lambda l: l.reverse()))
    out.append(Op('pop', lambda l: l.pop()))
    out.append(Op('pop(0)', lambda l: l.pop(0)))
    out.append(Op('pop(5)', lambda l: l.pop(5)))
    out.append(Op('del [0]', lambda l: delitem(l, 0)))
    out.append(Op('del [::2]', lambda l: delitem(l, slice(None, None, 2))))
    out.append(Op('clear', lambda l: l.clear()))
    # not items or not lists at all
    for n, v in (('None', None), ('5', 5), ('object', object())):
        out.append(Op('extend %s' % n, lambda l, v=v: l.extend(v)))
        out.append(Op('+= %s' % n, lambda l, v=v: iadd(l, v)))
        out.append(Op('[:]= %s' % n,
                      lambda l, v=v: setitem(l, slice(None), v)))
    return out


def outcome(do, l):
    try:
        return ('ok', do(l))
    except Exception as e:
        return ('raise', e)


def same(real, model, what):
    got = list(real)
    check(len(got) == len(model) and all(a is b for a, b in zip(got, model)),
          'content after ' + what, model, got)
    check(len(real) == len(model), 'length after ' + what, len(model),
          len(real))


def apply_op(op, real, model, path):
    """do op on both; returns the next model content"""
    before = list(model)
    m = list(model)
    want = outcome(op.do, m)
    if op.bad or op.fails or want[0] == 'raise':
        m = before
    got = outcome(op.do, real)
    what = '%s after %s on %r' % (op, path, before)
    if op.bad and not op.fails and want[0] == 'ok':
        check(got[0] == 'raise' and isinstance(got[1], TypeError),
              'element of another type: ' + what, 'TypeError', got)
    elif op.bad:
        # several things wrong: either may be reported
        check(got[0] == 'raise', what, 'an error', got)
    elif want[0] == 'raise':
        check(got[0] == 'raise' and
              isinstance(got[1], type(want[1])), what, want, got)
    else:
        check(got[0] == 'ok' and got[1] is want[1], what, want, got)
    same(real, m, what)
    return m


class A(object):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'A%s' % self.n


class B(A):
    pass


class C(object):
    pass


def universes():
    """element type(s) -> items"""
    a, b, c = A(1), B(2), C()
    yield 'A', A, [('a', a), ('b', b), ('c', c)]
    yield 'B', B, [('b', b), ('a', a)]
    yield '(B, C)', (B, C), [('b', b), ('c', c), ('a', a)]
    yield 'str', str, [('x', 'x'), ('bytes', b'x'), ('None', None)]
    yield 'int', int, [('1', 1), ('True', True), ('1.0', 1.0), ('"1"', '1')]
    yield 'list', list, [('[]', []), ('()', ())]
    yield 'object', object, [('a', a), ('None', None)]


MAXLEN = 4


def states(ctx, job):
    """every reachable content of <= MAXLEN elements, every operation on it"""
    from ndg.xacml.utils import TypedList
    depth = MAXLEN + (1 if ctx.thorough else 0)
    for name, ok, items in universes():
        allops = ops(items, ok)
        good = [x for _, x in items if isinstance(x, ok)]
        contents = [c for n in range(depth + 1)
                    for c in itertools.product(good, repeat=n)]
        for content in shard(contents, job):
            def one():
                ctx.state()
                for how in ('constructor', 'append', 'generator'):
                    if how != 'constructor' and len(content) > 2:
                        continue
                    for op in allops:
                        if how == 'constructor':
                            l = TypedList(ok, list(content))
                        elif how == 'generator':
                            l = TypedList(ok, (x for x in content))
                        else:
                            l = TypedList(ok)
                            for x in content:
                                l.append(x)
                        same(l, list(content), how)
                        ctx.step()
                        m = apply_op(op, l, list(content), how)
                        check(l.elementType is ok or l.elementType == ok,
                              'element type', ok, l.elementType)
                        ctx.outcome(op.name.split('(')[0])
                        # plain results
                        if m:
                            check(l[0] is m[0] and l[-1] is m[-1],
                                  'element access', m, l)
                            check(m[0] in l and l.index(m[0]) == 0,
                                  'look up', m, l)
                        check(list(l[1:]) == m[1:], 'slice', m[1:], l[1:])
                        # elements refused before are still refused
                        for _, x in items:
                            if not isinstance(x, ok):
                                apply_op(Op('append', lambda l, x=x:
                                            l.append(x), True), l, m, op.name)
            ctx.case('%s %r' % (name, content), one)


def construct(ctx, job):
    from ndg.xacml.utils import TypedList
    for name, ok, items in universes():
        for n in range(4):
            for seq in itertools.product(items, repeat=n):
                for form, mk in ITERS:
                    def one():
                        xs = [x for _, x in seq]
                        ctx.state()
                        got = outcome(lambda l: TypedList(ok, mk(xs)), None)
                        if form == 'broken':
                            check(got[0] == 'raise', 'broken iterator', 'error',
                                  got)
                        elif typed(xs, ok):
                            check(got[0] == 'ok', 'construction', 'list', got)
                            same(got[1], xs, 'construction')
                        else:
                            check(got[0] == 'raise' and
                                  isinstance(got[1], TypeError),
                                  'construction', 'TypeError', got)
                        ctx.outcome(got[0])
                    ctx.case('%s %s %s' % (name, form,
                                           '+'.join(a for a, _ in seq)), one)

        def ro():
            l = TypedList(ok, [])
            for v in (A, int, object, (A, int)):
                if v == ok:
                    continue
                try:
                    l.elementType = v
                except AttributeError:
                    pass
                check(l.elementType == ok, 'element type was changed', ok,
                      l.elementType)
            # two lists have nothing in common
            l2 = TypedList(ok)
            for _, x in items:
                if isinstance(x, ok):
                    l2.append(x)
            same(l, [], 'append to another list')
            for bad in (5, None, object()):
                try:
                    r = TypedList(ok, bad)
                except TypeError:
                    continue
                raise Mismatch('list of %r' % (bad,), 'TypeError', r)
        ctx.case('%s type' % name, ro)


def histories(ctx, job):
    """every sequence of operations on one live list"""
    from ndg.xacml.utils import TypedList
    depth = 4 if ctx.thorough else 3
    a, b, c = A(1), B(2), C()
    items = [('a', a), ('c', c)]
    some = [o for o in ops(items, A, small=True) if
            'a+a' not in o.name and 'c+' not in o.name and
            '*= 2' != o.name and 'object' not in o.name]
    for first in shard(some, job):
        def one():
            for rest in itertools.product(some, *[some[::2]] * (depth - 2)):
                l = TypedList(A, [a, b])
                m = [a, b]
                ctx.state()
                path = []
                for op in (first,) + rest:
                    m = apply_op(op, l, m, path)
                    path.append(op.name)
                    ctx.step()
                    if len(m) > 12:
                        break
        ctx.case(first.name, one)
    ctx.notes['operations'] = len(some)


# -- the collections of policies, requests and responses -------------------------

def collections_():
    """(name, make owner, [collection attributes], good elements, bad ones)"""
    from ndg.xacml.core.target import Target
    from ndg.xacml.core.subject import Subject
    from ndg.xacml.core.resource import Resource
    from ndg.xacml.core.action import Action
    from ndg.xacml.core.environment import Environment
    from ndg.xacml.core import match as M
    from ndg.xacml.core.apply import Apply
    from ndg.xacml.core.attribute import Attribute
    from ndg.xacml.core.attributevalue import AttributeValueClassFactory
    from ndg.xacml.core import attributedesignator as D
    from ndg.xacml.core.attributeselector import AttributeSelector
    from ndg.xacml.core.condition import Condition
    from ndg.xacml.core.context import request as R, response as RS, result
    from ndg.xacml.core.context import subject as cs, resource as cr, \
        action as ca, environment as ce
    from ndg.xacml.core.policy import Policy
    from ndg.xacml.core.policyset import PolicySet
    from ndg.xacml.core.rule import Rule, Effect
    from ndg.xacml.core.obligation import Obligation, AttributeAssignment
    from ndg.xacml.core.variablereference import VariableReference
    f = AttributeValueClassFactory()
    string = f('http://www.w3.org/2001/XMLSchema#string')
    integer = f('http://www.w3.org/2001/XMLSchema#integer')

    class Assign(AttributeAssignment):
        TYPE = str
        IDENTIFIER = 'http://www.w3.org/2001/XMLSchema#string'

    odd = [('None', None), ('str', 'x'), ('object', object())]
    E = dict(
        subject=Subject(), resource=Resource(), action=Action(),
        environment=Environment(), smatch=M.SubjectMatch(),
        rmatch=M.ResourceMatch(), amatch=M.ActionMatch(),
        ematch=M.EnvironmentMatch(), apply=Apply(), attribute=Attribute(),
        string=string('x'), integer=integer(1),
        des=D.SubjectAttributeDesignator(),
        rdes=D.ResourceAttributeDesignator(), sel=AttributeSelector(),
        condition=Condition(), cs=cs.Subject(), cr=cr.Resource(),
        ca=ca.Action(), ce=ce.Environment(), policy=Policy(),
        policyset=PolicySet(), rule=Rule(), obligation=Obligation(),
        assign=Assign('x'), result=result.Result(), request=R.Request(),
        response=RS.Response(), target=Target(), effect=Effect.PERMIT,
        decision=result.Decision.PERMIT)
    T = [
        ('Target', Target, ['subjects'], ['subject']),
        ('Target', Target, ['resources'], ['resource']),
        ('Target', Target, ['actions'], ['action']),
        ('Target', Target, ['environments'], ['environment']),
        ('Subject', Subject, ['matches', 'subjectMatches'], ['smatch']),
        ('Resource', Resource, ['matches', 'resourceMatches'], ['rmatch']),
        ('Action', Action, ['matches', 'actionMatches'], ['amatch']),
        ('Environment', Environment, ['matches', 'environmentMatches'],
         ['ematch']),
        ('Apply', Apply, ['expressions'],
         ['apply', 'string', 'integer', 'des', 'rdes', 'sel', 'assign']),
        ('Attribute', Attribute, ['attributeValues'],
         ['string', 'integer', 'assign']),
        ('Request', R.Request, ['subjects'], ['cs']),
        ('Request', R.Request, ['resources'], ['cr']),
        ('context Subject', cs.Subject, ['attributes'], ['attribute']),
        ('context Resource', cr.Resource, ['attributes'], ['attribute']),
        ('context Action', ca.Action, ['attributes'], ['attribute']),
        ('context Environment', ce.Environment, ['attributes'],
         ['attribute']),
        ('Response', RS.Response, ['results'], ['result']),
        ('Policy', Policy, ['rules'], ['rule']),
        ('Policy', Policy, ['obligations'], ['obligation']),
        ('PolicySet', PolicySet, ['policies'], ['policy', 'policyset']),
        ('PolicySet', PolicySet, ['obligations'], ['obligation']),
        ('Obligation', Obligation, ['attributeAssignments'], ['assign']),
    ]
    for name, mk, attrs, good in T:
        yield (name, mk, attrs, [(g, E[g]) for g in good],
               [(k, E[k]) for k in sorted(E) if k not in good] + odd)


def others(obj, attr):
    """every other public collection of obj"""
    out = []
    for n in dir(type(obj)):
        p = getattr(type(obj), n, None)
        if isinstance(p, property) and not n.startswith('_') and n != attr:
            try:
                v = getattr(obj, n)
            except Exception:
                continue
            if isinstance(v, list):
                out.append((n, v))
    return out


def objects(ctx, job):
    for name, mk, attrs, good, bad in collections_():
        kinds = tuple(set(type(x) for _, x in good))
        for attr in attrs:
            def fresh():
                o, o2 = mk(), mk()
                # what the names of one collection share, and the rest
                rest = [(n, v, list(v)) for n, v in others(o, attr)
                        if v is not getattr(o, attr)]
                return o, o2, rest

            def every_bad():
                for lab, x in bad:
                    for op in ops([(lab, x)], kinds, small=True):
                        o, o2, rest = fresh()
                        l = getattr(o, attr)
                        m = [g for _, g in good]
                        for g in m:
                            l.append(g)
                        ctx.state()
                        ctx.step()
                        apply_op(op, l, m, '%s.%s' % (name, attr))
                        l2 = getattr(o, attr)
                        check(l2 is l or list(l2) == list(l),
                              'another list at the second access', l, l2)
                        same(getattr(o2, attr), [], 'change of another object')
                        for n, v, was in rest:
                            same(getattr(o, n), was, 'change of ' + attr)
                        ctx.outcome(op.name.split(' ')[0])
            ctx.case('%s.%s refused' % (name, attr), every_bad)

            def closure():
                two = good[:2] + [bad[0]]
                some = ops(two, kinds, small=True)
                for p in itertools.product(some[::2], some[1::2]):
                    o, o2, rest = fresh()
                    m = []
                    ctx.state()
                    for op in p:
                        # fetched anew for every operation
                        m = apply_op(op, getattr(o, attr), m, p[0])
                        ctx.step()
                    same(getattr(o2, attr), [], 'change of another object')
                    for n, v, was in rest:
                        same(getattr(o, n), was, 'change of ' + attr)
            ctx.case('%s.%s pairs' % (name, attr), closure)

            def replaced():
                for v in ([], [good[0][1]], None, 'x', (), [bad[0][1]], {}):
                    o = mk()
                    l = getattr(o, attr)
                    l.append(good[0][1])
                    try:
                        setattr(o, attr, v)
                    except (AttributeError, TypeError):
                        pass
                    else:
                        raise Mismatch('%s.%s set to %r' % (name, attr, v),
                                       'refused', 'accepted')
                    same(getattr(o, attr), [good[0][1]], 'refused assignment')
            ctx.case('%s.%s assignment' % (name, attr), replaced)


# -- lists without duplicates ------------------------------------------------------

class Same(object):
    """all equal"""
    def __eq__(self, o):
        return isinstance(o, Same)

    def __hash__(self):
        return 1


class Unhashable(object):
    __hash__ = None

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Unhashable) and o.n == self.n


def uniq(ctx, job):
    from ndg.xacml.utils import UniqList
    depth = 4 if ctx.thorough else 3
    s1, s2, u1, u2 = Same(), Same(), Unhashable(1), Unhashable(1)
    items = [('1', 1), ('True', True), ('None', None), ('s1', s1), ('s2', s2),
             ('u1', u1), ('u2', u2), ('0', 0), ('empty', ()), ('[]', [])]

    def model_add(m, xs):
        for x in xs:
            if not any(y is x or y == x for y in m):
                m.append(x)

    alphabet = [('append(%s)' % n, [x], lambda l, x=x: l.append(x))
                for n, x in items]
    for seq in itertools.product(items[:7], repeat=2):
        xs = [x for _, x in seq]
        n = '+'.join(a for a, _ in seq)
        alphabet.append(('extend ' + n, xs, lambda l, xs=xs: l.extend(xs)))
        alphabet.append(('+= ' + n, xs, lambda l, xs=xs: iadd(l, xs)))
        alphabet.append(('extend gen ' + n, xs,
                         lambda l, xs=xs: l.extend(x for x in xs)))
    alphabet.append(('extend self', None, lambda l: l.extend(list(l))))
    alphabet.append(('+= self', None, lambda l: iadd(l, list(l))))
    alphabet.append(('extend nothing', [], lambda l: l.extend(())))
    seconds = alphabet[::6] if ctx.thorough else alphabet[::3]
    for a in shard(alphabet, job):
        def one():
            for rest in itertools.product(alphabet, *[seconds] * (depth - 2)):
                l, m = UniqList(), []
                ctx.state()
                for n, xs, do in (a,) + rest:
                    ctx.step()
                    do(l)
                    model_add(m, xs or [])
                    same(l, m, '%s of %r' % (n, [x[0] for x in (a,) + rest]))
        ctx.case(a[0], one)


# -- dictionaries ------------------------------------------------------------------

def keys(ctx, job):
    from ndg.xacml.utils import RestrictedKeyNamesDict
    inits = [('none', (), {}), ('dict', ({'a': 1, 'b': 2},), {}),
             ('pairs', ([('a', 1), ('b', 2)],), {}),
             ('kw', (), {'a': 1, 'b': 2}), ('both', ({'a': 1},), {'b': 2}),
             ('one', ({'a': None},), {})]
    opl = []
    for k in ('a', 'b', 'c', None, 1, '', 'A'):
        for v in (0, None):
            opl.append(('[%r]=%r' % (k, v), {k: v},
                        lambda d, k=k, v=v: setitem(d, k, v)))
    for n in (1, 2, 3):
        for ks in itertools.combinations(('a', 'b', 'c', 'e'), n):
            new = dict((k, k * 2) for k in ks)
            opl.append(('update %r' % (ks,), new,
                        lambda d, new=new: d.update(new)))
            opl.append(('update kw %r' % (ks,), new,
                        lambda d, new=new: d.update({}, **new)))
            if n > 1:
                first = {ks[0]: ks[0] * 2}
                rest = dict((k, k * 2) for k in ks[1:])
                opl.append(('update both %r' % (ks,), new,
                            lambda d, a=first, b=rest: d.update(a, **b)))
                opl.append(('update both2 %r' % (ks,), new,
                            lambda d, a=first, b=rest: d.update(b, **a)))
    opl.append(('update nothing', {}, lambda d: d.update({})))
    for iname, a, kw in inits:
        for seq in itertools.product(opl, repeat=2 if not ctx.thorough else 3):
            def one():
                d = RestrictedKeyNamesDict(*a, **kw)
                other = RestrictedKeyNamesDict(x=1)
                m = dict(*a, **kw)
                names = set(m)
                check(dict(d) == m, 'initial content', m, dict(d))
                ctx.state()
                for n, new, do in seq:
                    ctx.step()
                    got = outcome(do, d)
                    if set(new) <= names:
                        m.update(new)
                        check(got[0] == 'ok', n, 'accepted', got)
                    else:
                        check(got[0] == 'raise' and
                              isinstance(got[1], KeyError), n, 'KeyError', got)
                    check(dict(d) == m and list(d) == list(m),
                          'content after ' + n, m, dict(d))
                    ctx.outcome(got[0])
                check(dict(other) == {'x': 1}, 'another dictionary', {'x': 1},
                      dict(other))
            ctx.case('%s %s' % (iname, [n for n, _, _ in seq]), one)


class Refused(Exception):
    pass


def vetted(ctx, job):
    from ndg.xacml.utils import VettedDict

    def no(x):
        raise Refused(x)
    kf = [('short', lambda k: len(k) == 1), ('all', lambda k: True),
          ('none', lambda k: False),
          ('raise', lambda k: True if len(k) == 1 else no(k))]
    vf = [('positive', lambda v: v > 0), ('all', lambda v: 1),
          ('none', lambda v: None),
          ('raise', lambda v: True if v > 0 else no(v))]
    opl = [('set', k, v) for k in ('a', 'b', 'aa') for v in (1, 2, -1)]
    opl += [('setdefault', k, v) for k in ('a', 'aa') for v in (3, -1)]
    opl += [('del', k, None) for k in ('a', 'aa')]
    opl += [('pop', k, None) for k in ('a', 'aa')]
    opl += [('update', ks, v) for ks in (('a', 'b'), ('b', 'aa'))
            for v in (4, -1)]
    opl += [('clear', None, None), ('popitem', None, None)]

    def verdict(f, x):
        try:
            return 'yes' if f(x) else 'no'
        except Refused:
            return 'raise'

    for (kn, k_), (vn, v_) in itertools.product(kf, vf):
        for seq in itertools.product(opl, repeat=4 if ctx.thorough else 3):
            def one():
                d = VettedDict(k_, v_)
                other = VettedDict(k_, v_)
                m = collections.OrderedDict()

                def put(k, v):
                    a, b = verdict(k_, k), verdict(v_, v)
                    if a == 'yes' and b == 'yes':
                        m[k] = v
                    return 'raise' if a == 'raise' or (
                        a == 'yes' and b == 'raise') else 'ok'
                ctx.state()
                for op, k, v in seq:
                    ctx.step()
                    err = None
                    if op == 'set':
                        got = outcome(lambda l: setitem(d, k, v), None)
                        want = put(k, v)
                    elif op == 'setdefault':
                        got = outcome(lambda l: d.setdefault(k, v), None)
                        want = 'ok' if k in m else put(k, v)
                    elif op == 'update':
                        got = outcome(lambda l: d.update(
                            [(x, v) for x in k]), None)
                        want = 'ok'
                        for x in k:
                            if put(x, v) == 'raise':
                                want = 'raise'
                                break
                    elif op == 'clear':
                        got = outcome(lambda l: d.clear(), None)
                        want = 'ok'
                        m.clear()
                    elif op == 'popitem':
                        got = outcome(lambda l: d.popitem(), None)
                        want = 'ok' if m else 'key'
                        if got[0] == 'ok':
                            check(got[1][0] in m and
                                  m.pop(got[1][0]) == got[1][1], 'popitem',
                                  dict(m), got)
                    elif op == 'del':
                        got = outcome(lambda l: delitem(d, k), None)
                        want = 'ok' if k in m else 'key'
                        m.pop(k, None)
                    else:
                        got = outcome(lambda l: d.pop(k), None)
                        want = 'ok' if k in m else 'key'
                        m.pop(k, None)
                    res = ('ok' if got[0] == 'ok' else 'key'
                           if isinstance(got[1], KeyError) else 'raise')
                    check(res == want, '%s %r %r' % (op, k, v), want, got)
                    check(dict(d.items()) == dict(m) and
                          sorted(d.keys()) == sorted(m) and
                          sorted(d.values()) == sorted(m.values()) and
                          sorted(d) == sorted(m) and len(d) == len(m),
                          'content after %s' % op, dict(m), d)
                    for x in ('a', 'b', 'aa'):
                        check((x in d) == (x in m) and d.get(x) == m.get(x) and
                              d.get(x, 9) == m.get(x, 9), 'look up of ' + x,
                              m.get(x), d.get(x))
                        g = outcome(lambda l: d[x], None)
                        check(g == ('ok', m[x]) if x in m else
                              g[0] == 'raise' and isinstance(g[1], KeyError),
                              'item ' + x, m.get(x), g)
                    ctx.outcome(res)
                check(len(other) == 0, 'another dictionary', 0, len(other))
            ctx.case('%s %s %s' % (kn, vn, [o for o in seq]), one)
    for bad in ((), (len,), (len, len, len), (1, len), (len, 1), (None, None)):
        def wrong():
            g = outcome(lambda l: VettedDict(*bad), None)
            check(g[0] == 'raise' and isinstance(g[1], TypeError),
                  'filters %r' % (bad,), 'TypeError', g)
        ctx.case('filters %s' % (tuple(getattr(b, '__name__', b)
                                       for b in bad),), wrong)


# -- sizes -----------------------------------------------------------------------------
def long(ctx, job):
    """Every operation on long lists, and lists that grow element by element."""
    from ndg.xacml.utils import TypedList
    for name, ok, items in universes():
        good = [x for _, x in items if isinstance(x, ok)]
        allops = ops(items, ok, True)
        for n in (30, 130, 300, 1100):
            content = [good[i * 7 // 3 % len(good)] for i in range(n)]

            def one():
                ctx.state()
                for op in allops:
                    l = TypedList(ok, list(content))
                    same(l, content, 'constructor')
                    apply_op(op, l, list(content), 'constructor')
                    ctx.step()
                l, m = TypedList(ok), []
                for i, x in enumerate(content):
                    m = apply_op(Op('append', lambda l: l.append(x)), l, m, '')
                    for _, bad in items:
                        if not isinstance(bad, ok):
                            for how in ('append', 'insert', 'set', 'extend'):
                                m = apply_op(Op(how, {
                                    'append': lambda l: l.append(bad),
                                    'insert': lambda l: l.insert(i // 2, bad),
                                    'set': lambda l: setitem(l, i // 2, bad),
                                    'extend': lambda l: l.extend([bad])}[how],
                                    True), l, m, 'append')
                    ctx.step()
                for _ in range(n):
                    m = apply_op(Op('pop', lambda l: l.pop()), l, m, 'pop')
            ctx.case('%s %d' % (name, n), one)


def run(ctx):
    globals()[base(ctx.job)](ctx, ctx.job)
