"""Attribute values hold native values of their data type only, and compare by
them."""
import decimal
import fractions
import itertools
from datetime import date, datetime, time, timedelta, timezone

from mc import build
from mc.core import Mismatch, check
from mc.pdpcheck import base, shard
from mc.spec import TYPE

KIND = dict((t, 'text') for t in ('string', 'anyURI', 'x500Name', 'rfc822Name',
                                  'ipAddress', 'dnsName'))
KIND.update(integer='whole', hexBinary='whole', boolean='bool', double='float',
            date='moment', dateTime='moment', time='moment',
            dayTimeDuration='span', yearMonthDuration='span')
TYPES = sorted(KIND)


class Str(str):
    pass


class Int(int):
    pass


class Float(float):
    pass


class Moment(datetime):
    pass


class Span(timedelta):
    pass


class Equal(object):
    """Equal to everything."""

    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False


def zone(h):
    return timezone(timedelta(hours=h))


GOOD = {
    'text': ['', 'a', 'A', 'a ', ' a', '\n', '1', 'True', 'None', '\u00e9',
             'e\u0301', '\U0001f511', 'a' * 300, Str('a'), Str('')],
    'whole': [0, 1, -1, 2, 255, 10 ** 30, 10 ** 30 + 1, Int(1), Int(7)],
    'bool': [True, False],
    'float': [0.0, 1.0, -1.0, 0.1, 0.1 + 0.2, 0.3, 1e300, float('inf'),
              float('-inf'), -0.0, Float(1.0)],
    'moment': [datetime(2020, 1, 1), datetime(2020, 1, 1, 0, 0, 0, 1),
               datetime(1, 1, 1), datetime(9999, 12, 31, 23, 59, 59, 999999),
               datetime(2020, 1, 1, tzinfo=zone(0)),
               datetime(2020, 1, 1, 2, tzinfo=zone(2)),
               datetime(2020, 1, 1, tzinfo=zone(2)), Moment(2020, 1, 1)],
    'span': [timedelta(0), timedelta(1), timedelta(hours=24), timedelta(-1),
             timedelta(0, 0, 1), timedelta.max, Span(1)],
}


def others():
    """Objects that are native values of no data type."""
    return [None, b'', b'a', bytearray(b'a'), decimal.Decimal(1),
            fractions.Fraction(1), 1j, [], ['a'], (), ('a',), {}, {'a': 1},
            set(), object(), str, int, bool, datetime, NotImplemented, Ellipsis,
            len, lambda: 'a', iter('a'), date(2020, 1, 1), time(1, 2), Equal(),
            range(3), memoryview(b'a')]


def accepts(t, x):
    """True, False or None (left open) for an object."""
    k = KIND[t]
    if isinstance(x, bool):
        return True if k == 'bool' else None if k == 'whole' else False
    return isinstance(x, {'text': str, 'whole': int, 'bool': bool,
                          'float': float, 'moment': datetime,
                          'span': timedelta}[k])


def pool():
    """[(label, object)]"""
    out = [('%s %r' % (k, x), x) for k in sorted(GOOD) for x in GOOD[k]]
    out.append(('float nan', float('nan')))
    out += [('other %d' % i, x) for i, x in enumerate(others())]
    C = build.lib().valueClass
    out += [('value ' + t, C(TYPE[t])(GOOD[KIND[t]][1])) for t in TYPES]
    return out


def construct(t, x):
    """Value of type t made of x, or the exception."""
    cls = build.lib().valueClass(TYPE[t])
    try:
        return cls(x)
    except Exception as e:
        return e


def is_value(v, t):
    return isinstance(v, build.lib().AttributeValue) and v.dataType == TYPE[t]


def make(ctx, job):
    objs = pool()
    for t in shard(TYPES, job):
        for a, x in objs:
            ctx.case('%s(%s)' % (t, a), made, ctx, t, x, objs)
        ctx.case('%s()' % t, unset, ctx, t, objs)


def made(ctx, t, x, objs):
    ok = accepts(t, x)
    v = construct(t, x)
    if x is None:
        check(is_value(v, t) and v.value is None, 'value of nothing', None, v)
    elif isinstance(v, Exception):
        check(not ok, 'refused: %s' % v, repr(x), type(v).__name__)
        check(isinstance(v, TypeError), 'refused with', 'TypeError',
              type(v).__name__)
        ctx.outcome('refused')
        ctx.state()
        return
    else:
        check(ok is not False, 'accepted', 'TypeError', repr(x))
        check(is_value(v, t), 'made a', t, type(v).__name__)
        check(v.value is x, 'value made of %r' % (x,), repr(x), repr(v.value))
    assign_all(ctx, t, v, x, objs)
    ctx.outcome('accepted')


def assign_all(ctx, t, v, x, objs):
    """Every object assigned to a value holding x."""
    cls = type(v)
    for label, y in objs:
        ok = accepts(t, y)
        try:
            v.value = y
        except TypeError:
            check(not ok, 'assignment refused', repr(y), 'TypeError')
            check(v.value is x, 'value after refused assignment of ' + label,
                  repr(x), repr(v.value))
        else:
            check(ok is not False, 'assignment accepted', 'TypeError', repr(y))
            check(v.value is y, 'value after assignment', repr(y), repr(v.value))
            if x is None:
                v = cls()
            else:
                v.value = x
                check(v.value is x, 'value assigned again', repr(x),
                      repr(v.value))
        check(v.dataType == TYPE[t] and type(v) is cls and v.evaluate(None) is v,
              'the value itself')
        ctx.step()
    ctx.state()


def unset(ctx, t, objs):
    v = build.lib().valueClass(TYPE[t])()
    check(v.value is None, 'value of a new one', None, repr(v.value))
    assign_all(ctx, t, v, None, objs)


# -- comparison -------------------------------------------------------------------
def comparison(ctx, job):
    vals = []
    for t in TYPES:
        for x in GOOD[KIND[t]]:
            vals.append((t, x))
    for t, x in shard(vals, job):
        ctx.case('%s %r' % (t, x), compared, ctx, t, x, vals)


def compared(ctx, t, x, vals):
    v = construct(t, x)
    check(v == v, 'value equal to itself')
    for u, y in vals:
        w = construct(u, y)
        for name, op in (('==', lambda: v == w), ('!=', lambda: v != w),
                         ('in', lambda: v in [w]), ('== reversed',
                                                    lambda: w == v)):
            try:
                got = op()
            except TypeError:
                got = 'TypeError'
            want = 'TypeError'
            if t == u:
                want = (x == y) == (name != '!=')
            check(got == want and type(got) is type(want), '%s %r %s %s %r' % (
                t, x, name, u, y), want, got)
            ctx.step()
        check(v.value is x and w.value is y, 'comparison changed a value')
    for y in [x, str(x), 0, 1, '', 'a', None, True, object(), TYPE[t], type(v)]:
        for op in (lambda: v == y, lambda: v != y):
            try:
                got = op()
            except TypeError:
                continue
            raise Mismatch('%s %r compared with the plain %r' % (t, x, y),
                           'TypeError', got)
        ctx.step()
    ctx.outcome(t)
    ctx.state()


# -- look-up ---------------------------------------------------------------------
def edits(s):
    for i in range(len(s) + 1):
        yield s[:i] + ' ' + s[i:]
        if i < len(s):
            yield s[:i] + s[i + 1:]
            yield s[:i] + s[i].swapcase() + s[i + 1:]
            yield s[:i] + s[i] + s[i:]
            yield s[:i] + '#' + s[i + 1:]
            yield s[:i]
            yield s[i:]


def lookup(ctx, job):
    L = build.lib()
    ids = set(TYPE.values())

    def known(t):
        cls = L.valueClass(TYPE[t])
        check(isinstance(cls, type) and issubclass(cls, L.AttributeValue),
              'class of ' + t, 'a value class', cls)
        check(cls.IDENTIFIER == TYPE[t], 'identifier of the class', TYPE[t],
              cls.IDENTIFIER)
        check(L.valueClass(TYPE[t]) is cls, 'class looked up again')
        check(type(L.valueClass)()(TYPE[t]) is cls, 'class of another factory')
        for u in sorted(TYPE):
            check(u == t or L.valueClass(TYPE[u]) is not cls,
                  '%s and %s have the same class' % (t, u))
        ctx.step()
        ctx.state()

    def near(t):
        for s in edits(TYPE[t]):
            if s not in ids:
                check(L.valueClass(s) is None, 'class of %r' % s, None,
                      L.valueClass(s))
                ctx.step()
        ctx.state()
    for t in sorted(TYPE):
        ctx.case('known ' + t, known, t)
        ctx.case('near ' + t, near, t)
    for t in sorted(TYPE):
        ctx.case('name ' + t, lambda: check(
            L.valueClass(t) is None and L.valueClass(
                t[0].upper() + t[1:]) is None, 'class by name'))

    def nobinary(x):
        v = construct('base64Binary', x)
        check(isinstance(v, Exception) or v.value is None, 'base64 value', None,
              repr(getattr(v, 'value', v)))
    for a, x in pool():
        ctx.case('base64Binary ' + a, nobinary, x)

    def abstract():
        for args in ((), ('a',)):
            try:
                v = L.AttributeValue(*args)
            except Exception:
                continue
            raise Mismatch('value without data type', 'error', repr(v))
    ctx.case('abstract', abstract)


# -- bags -----------------------------------------------------------------------
def bags(ctx, job):
    from ndg.xacml.utils import TypedList
    L = build.lib()

    def one(t):
        cls = L.valueClass(TYPE[t])
        good = [cls(x) for x in GOOD[KIND[t]][:3]]
        for label, y in pool():
            ok = isinstance(y, cls)
            for k in range(3):
                for op in ('append', 'insert', 'extend', 'iadd', 'set'):
                    b = TypedList(cls)
                    b.extend(good[:k])
                    if op == 'set' and not k:
                        continue
                    try:
                        if op == 'append':
                            b.append(y)
                        elif op == 'insert':
                            b.insert(0, y)
                        elif op == 'extend':
                            b.extend([y])
                        elif op == 'iadd':
                            b += [y]
                        else:
                            b[0] = y
                    except TypeError:
                        check(not ok, op + ' refused', label, 'TypeError')
                        check([id(z) for z in b] == [id(z) for z in good[:k]],
                              'bag after refused ' + op)
                    else:
                        check(ok, op + ' accepted', 'TypeError', label)
                        check(any(z is y for z in b) and
                              len(b) == k + (op != 'set'), 'bag after ' + op)
                    ctx.step()
        ctx.outcome(t)
        ctx.state()
    for t in TYPES:
        ctx.case(t, one, t)


# -- histories -------------------------------------------------------------------
def histories(ctx, job):
    """Two values of a type and one of another, assigned in turns."""
    objs = others()
    for t in TYPES:
        u = TYPES[(TYPES.index(t) + 4) % len(TYPES)]
        g = GOOD[KIND[t]]
        args = [(i, x) for i in (0, 1) for x in g[:3] + [
            None, objs[4], GOOD[KIND[u]][0]]] + [(2, GOOD[KIND[u]][1])]
        n = 4 if ctx.thorough else 3
        for i, h in enumerate(shard(itertools.product(range(len(args)),
                                                      repeat=n), job)):
            ctx.case('%s %r' % (t, h), history, ctx, t, u, [args[k] for k in h])


def history(ctx, t, u, h):
    types = (t, t, u)
    vs = [construct(x, None) for x in types]
    want = [None] * 3
    for i, x in h:
        ok = x is not None and accepts(types[i], x)
        try:
            vs[i].value = x
        except TypeError:
            check(not ok, 'assignment refused', repr(x), 'TypeError')
        else:
            check(ok is not False, 'assignment accepted', 'TypeError', repr(x))
            want[i] = x
        check(all(v.value is w for v, w in zip(vs, want)), 'values', repr(want),
              repr([v.value for v in vs]))
        ctx.step()
    got = vs[0] == vs[1]
    check(got == (want[0] == want[1]), 'equal', want, got)
    ctx.state()


def run(ctx):
    globals()[base(ctx.job)](ctx, ctx.job)
