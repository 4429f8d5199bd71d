"""Standard functions: value, type and arity semantics."""
import itertools
from datetime import datetime, timedelta, timezone

from mc import build, spec
from mc.c08 import long_text
from mc.core import Mismatch, check
from mc.pdpcheck import base, edges, shard
from mc.spec import *

UTC = timezone.utc
VALUES = {
    'string': ['a', 'A', '', 'ab', 'a ', ' a', '1', 'True', 'e\u0301', '\u00e9'],
    'anyURI': ['http://a', 'http://a/', 'http://A', 'a', '', 'http://a#x'],
    'x500Name': ['CN=a, O=b', 'CN=c, O=d', '/O=b/CN=a'],
    'rfc822Name': ['a@x.org', 'b@x.org', 'a@y.org'],
    'ipAddress': ['10.0.0.1', '10.0.0.10', '10.0.0.0/8', 'a'],
    'dnsName': ['a.org', 'b.org', '*.org', 'a'],
    'integer': [0, 1, -1, 2, 10 ** 30, 10 ** 30 + 1],
    'hexBinary': [0, 1, 255, 2 ** 70],
    'double': [0.0, 1.0, -1.0, 0.1 + 0.2, 0.3, float('inf'), 1e300],
    'boolean': [True, False],
    'date': [datetime(2020, 1, 1), datetime(2020, 1, 2), datetime(2021, 1, 1)],
    'time': [datetime(1900, 1, 1, 1), datetime(1900, 1, 1, 2),
             datetime(1900, 1, 1, 1, 0, 0, 1)],
    'dateTime': [datetime(2020, 1, 1), datetime(2020, 1, 1, 0, 0, 1),
                 datetime(2020, 1, 1, 1, tzinfo=timezone(timedelta(hours=1))),
                 datetime(2020, 1, 1, 0, tzinfo=UTC)],
    'dayTimeDuration': [timedelta(0), timedelta(1), timedelta(hours=24),
                        timedelta(0, 0, 1), timedelta(-1)],
    'yearMonthDuration': [timedelta(0), timedelta(365), timedelta(366)],
    'base64Binary': [],
}
EQUAL = [t for t in VALUES if t not in ('ipAddress', 'dnsName')]
BAGS = [t for t in VALUES if t not in ('ipAddress', 'dnsName')]
REGEXP = {'string': F1, 'anyURI': F2, 'ipAddress': F2, 'dnsName': F2,
          'rfc822Name': F2, 'x500Name': F2}
FUNCTIONS = ([(F1 + t + '-equal', t) for t in EQUAL] +
             [(F1 + t + s, t) for t in BAGS for s in
              ('-one-and-only', '-bag', '-at-least-one-member-of')] +
             [(ns + t + '-regexp-match', t) for t, ns in sorted(REGEXP.items())] +
             [(F2 + 'string-concatenate', 'string'),
              (F2 + 'url-string-concatenate', 'anyURI'),
              (F1 + 'and', 'boolean'), (F1 + 'not', 'boolean')])


def o_arg(a):
    L = build.lib()
    if isinstance(a, Val):
        return build.o_value(a)
    if isinstance(a, BagV):
        from ndg.xacml.utils import TypedList
        b = TypedList(L.valueClass(TYPE[a.type]))
        for v in a.items:
            b.append(build.o_value(Val(a.type, v)))
        return b
    return a


def a_arg(o):
    """Library value to model value."""
    L = build.lib()
    from ndg.xacml.utils import TypedList
    if isinstance(o, bool):
        return o
    if isinstance(o, L.AttributeValue):
        return Val(build.UNTYPE.get(o.dataType, o.dataType), o.value)
    if isinstance(o, TypedList):
        return BagV(build.UNTYPE.get(o.elementType.IDENTIFIER,
                                     o.elementType.IDENTIFIER),
                    tuple(a_arg(x).value for x in o))
    return ('?', type(o).__name__, repr(o))


def norm(m):
    if isinstance(m, BagV):
        return (m.type, sorted(repr(i) for i in m.items))
    return m


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, Val):
        return (a.type == b.type and type(a.value) is type(b.value) and
                a.value == b.value)
    return norm(a) == norm(b)


class Lit(object):
    """Expression yielding a given library value."""


def lit(o):
    L = build.lib()
    global _lit
    if _lit is None:
        from ndg.xacml.core.expression import Expression

        class _Lit(Expression):
            ELEMENT_LOCAL_NAME = 'Lit'

            def evaluate(self, context):
                return self.o
        _lit = _Lit
    e = _lit()
    e.o = o
    return e


_lit = None


def one(ctx, fid, args):
    L = build.lib()
    try:
        want = spec.call(fid, args)
    except Fail:
        want = E
    for how in ('apply', 'class'):
        objs = [o_arg(a) for a in args]
        try:
            if how == 'class':
                got = a_arg(L.functionMap[fid]().evaluate(*objs))
            else:
                ap = L.Apply()
                ap.functionId = fid
                for o in objs:
                    ap.expressions.append(lit(o))
                got = a_arg(ap.evaluate(None))
        except Exception:
            got = E
        ctx.step()
        if got == E and isinstance(got, str) or want == E:
            ok = (isinstance(got, str) and got == E and isinstance(want, str)
                  and want == E)
        else:
            ok = same(got, want)
        if not ok:
            raise Mismatch('%s%r (%s)' % (fid, tuple(args), how), repr(want),
                           repr(got))
        back = [a_arg(o) if not isinstance(o, str) else o for o in objs]
        for a, b in zip(args, back):
            check(same(a, b) if not isinstance(a, str) else a == b,
                  'argument changed by %s' % fid, repr(a), repr(b))
    ctx.outcome(type(want).__name__ if not isinstance(want, bool) else want)
    ctx.state()


def universe(t, small):
    """Arguments for a function over type t."""
    vs = VALUES[t][:3 if small else None]
    u = [Val(t, v) for v in vs]
    u += [BagV(t, ())]
    if vs:
        u += [BagV(t, (vs[0],)), BagV(t, (vs[-1],))]
        if len(vs) > 1:
            u += [BagV(t, (vs[0], vs[1]))]
            u += [BagV(t, (vs[1], vs[0], vs[1]))]
    others = sorted(o for o in VALUES if o != t)
    if small:
        others = [o for o in ('string', 'anyURI', 'integer', 'boolean')
                  if o != t]
    for o in others:
        if VALUES[o]:
            u += [Val(o, VALUES[o][0])]
            u += [BagV(o, (VALUES[o][0],))]
        if not small:
            u += [BagV(o, ())]
    return u + [True, False, 'a']


def args(ctx, job):
    for fid, t in shard(FUNCTIONS, job):
        big, small = universe(t, False), universe(t, True)
        lists = [()] + [(a,) for a in big] + list(itertools.product(big, repeat=2))
        lists += itertools.product(small, repeat=3)
        if ctx.thorough:
            tiny = [x for x in small if not isinstance(x, BagV) or x.items]
            lists += itertools.product(tiny, repeat=4)
        for a in lists:
            key = '%s%r' % (fid.split(':')[-1], a)
            ctx.sample(key)
            ctx.case(key, one, ctx, fid, a)


def bags(ctx, job):
    """Bag functions on every pair of bags of <=3 values over 3, concatenation
    and bag construction of every list of <=4."""
    for t in BAGS:
        vs = VALUES[t][:3]
        bs = [BagV(t, b) for k in range(4 + ctx.thorough)
              for b in itertools.product(vs, repeat=k)]
        fid = F1 + t + '-at-least-one-member-of'
        for a, b in itertools.product(bs, repeat=2):
            ctx.case('%s%r%r' % (fid, a.items, b.items), one, ctx, fid, (a, b))
        for a in bs:
            fid = F1 + t + '-one-and-only'
            ctx.case('%s%r' % (fid, a.items), one, ctx, fid, (a,))
        for k in range(5):
            for c in itertools.product(vs, repeat=k):
                fid = F1 + t + '-bag'
                ctx.case('%s%r' % (fid, c), one, ctx, fid,
                         tuple(Val(t, v) for v in c))
    vs = [Val('string', v) for v in ('a', 'b', '', 'a b')]
    us = [Val('anyURI', v) for v in ('http://a', '')]
    for k in range(5):
        for c in itertools.product(vs, repeat=k):
            ctx.case('concat%r' % (c,), one, ctx, F2 + 'string-concatenate', c)
            for u in us:
                ctx.case('url%r%r' % (u, c), one, ctx,
                         F2 + 'url-string-concatenate', (u,) + c)


# -- regular expressions -----------------------------------------------------------
# pattern syntax trees with an own matcher: ends(p, s, i) is the set of positions
# where a match of p starting at i can end
def atoms():
    yield ('c', 'a')
    yield ('c', 'b')
    yield ('any',)
    yield ('set', False, 'ab')
    yield ('set', True, 'a')
    yield ('bol',)
    yield ('eol',)


def pats(n):
    """Patterns with n operators."""
    if n == 0:
        for a in atoms():
            yield a
        return
    for p in pats(n - 1):
        if p[0] not in ('bol', 'eol', 'star', 'plus', 'opt', 'two'):
            for op in ('star', 'plus', 'opt', 'two'):
                yield (op, p)
    for k in range(n):
        for p in pats(k):
            for q in pats(n - 1 - k):
                yield ('cat', p, q)
                yield ('alt', p, q)


def text(p):
    k = p[0]
    if k == 'c':
        return p[1]
    if k == 'any':
        return '.'
    if k == 'bol':
        return '^'
    if k == 'eol':
        return '$'
    if k == 'set':
        return '[%s%s]' % ('^' if p[1] else '', p[2])
    if k == 'cat':
        return ''.join('(%s)' % text(x) if x[0] == 'alt' else text(x)
                       for x in p[1:])
    if k == 'alt':
        return text(p[1]) + '|' + text(p[2])
    s = text(p[1])
    if p[1][0] in ('cat', 'alt'):
        s = '(%s)' % s
    return s + {'star': '*', 'plus': '+', 'opt': '?', 'two': '{2}'}[k]


def ends(p, s, i):
    k = p[0]
    if k == 'c':
        return {i + 1} if s[i:i + 1] == p[1] else set()
    if k == 'any':
        return {i + 1} if i < len(s) else set()
    if k == 'set':
        return {i + 1} if i < len(s) and (s[i] in p[2]) != p[1] else set()
    if k == 'bol':
        return {i} if i == 0 else set()
    if k == 'eol':
        return {i} if i == len(s) else set()
    if k == 'cat':
        return {e for m in ends(p[1], s, i) for e in ends(p[2], s, m)}
    if k == 'alt':
        return ends(p[1], s, i) | ends(p[2], s, i)
    if k == 'two':
        return {e for m in ends(p[1], s, i) for e in ends(p[1], s, m)}
    if k == 'opt':
        return {i} | ends(p[1], s, i)
    out, todo = set(), {i} if k == 'star' else ends(p[1], s, i)
    while todo:
        out |= todo
        todo = {e for m in todo for e in ends(p[1], s, m)} - out
    return out


STRINGS = [''.join(c) for k in range(4) for c in itertools.product('abc', repeat=k)]


def regexp(ctx, job):
    n = 3 if ctx.thorough else 2
    seen = set()
    for p in shard((p for k in range(n + 1) for p in pats(k)), job):
        t = text(p)
        if t not in seen:
            seen.add(t)
            ctx.sample(t)
            ctx.case(t, rx, ctx, p, t)
    if job.split(':')[1].startswith('0'):
        for t in ('(', 'a)', '[', '*', 'a**', '(?P<', '\\', 'a{2,1}', '+', '?',
                  '[b-a]', '(?'):
            ctx.case('invalid ' + t, badrx, ctx, t)
        for t, yes, no in (
                ('a$', ['a', 'a\n'], ['a\nb', 'a\n\n', 'b\na', 'ab']),
                ('^a', ['a', 'a\nb'], ['b\na', '\na']),
                ('.*b', ['ab', 'b'], ['a\nb', '\nb']),
                ('a.b', ['axb', 'a b'], ['a\nb', 'ab']),
                ('.*$', ['', 'a', '\n', 'a\n'], ['a\nb', '\n\n']),
                ('(.|\n)*b', ['a\nb'], ['a\na']),
                ('a\nb', ['a\nb'], ['a b', 'a\r\nb']),
                ('\\s', [' ', '\n', '\t', '\r', '\u00a0'], ['', 'a']),
                ('\\w+$', ['a1_', '\u00e9', '\u4e2d'], ['a-b', '']),
                ('\\d$', ['1', '\u0661'], ['a']),
                ('a b#c', ['a b#c'], ['ab', 'a b', 'a']),
                ('ABC', ['ABC', 'ABCd'], ['abc', 'Abc', 'aBC']),
                ('[a-z]+$', ['abc'], ['ABC', 'aBc', '']),
                ('\u00e9', ['\u00e9'], ['\u00c9', 'e']),
                ('ss', ['ss'], ['\u00df', 'SS']),
                ('k', ['k'], ['K', '\u212a']),
                ('a', ['a', 'a\x00', 'a' * 5000], ['\x00a', ' a', '']),
                ('(a)\\1$', ['aa'], ['a', 'ab']),
                ('(?=a)a$', ['a'], ['ba']), ('a|', ['', 'a', 'b'], []),
                ('\\Aa\\Z', ['a'], ['a\n', 'ab']),
                ('\\ba', ['a'], [' a']),
                ('\\.org', ['.org', '.orgs'], ['xorg', 'a.org']),
                ('.*\\.org$', ['a.org', '.org'], ['a.orgs', 'aorg']),
                ('^https?://x/', ['http://x/y', 'https://x/'],
                 ['http:/x/', 'ftp://x/', ' http://x/']),
                ('\\d+', ['1', '12a'], ['a1', '']),
                ('(?i)ab', ['AB', 'abc'], ['ba']),
                ('a\u00e9', ['a\u00e9'], ['ae\u0301', 'ae']),
                ('', ['', 'a'], []), ('a b', ['a b c'], ['ab']),
                ('#a', ['#a'], ['a', '']),
                ('/CN=.*Smith', ['/CN=J Smith', '/CN=Smithers'],
                 ['/CN=', '/cn=J Smith']),
                ('10\\.0\\.0\\.', ['10.0.0.1'], ['10a0.0.1', '110.0.0.1'])):
            for s, w in [(x, True) for x in yes] + [(x, False) for x in no]:
                ctx.case('fixed %s %s' % (t, s), fixed, ctx, t, s, w)


def rx(ctx, p, t):
    L = build.lib()
    for ty, ns in sorted(REGEXP.items()):
        f = L.functionMap[ns + ty + '-regexp-match']()
        pv = build.o_value(Val(ty, t))
        for s in STRINGS:
            want = bool(ends(p, s, 0))
            got = f.evaluate(pv, build.o_value(Val(ty, s)))
            ctx.step()
            if got is not want:
                raise Mismatch('%s-regexp-match(%r, %r)' % (ty, t, s), want, got)
            ctx.outcome(want)
    ctx.state(len(STRINGS))


def badrx(ctx, t):
    L = build.lib()
    for ty, ns in sorted(REGEXP.items()):
        f = L.functionMap[ns + ty + '-regexp-match']()
        for s in ('', 'a', t):
            for _ in range(2):
                try:
                    r = f.evaluate(build.o_value(Val(ty, t)),
                                   build.o_value(Val(ty, s)))
                except Exception:
                    continue
                raise Mismatch('invalid pattern %r accepted' % t, 'error', r)
    ctx.state()


def fixed(ctx, t, s, want):
    L = build.lib()
    for ty, ns in sorted(REGEXP.items()):
        f = L.functionMap[ns + ty + '-regexp-match']()
        got = f.evaluate(build.o_value(Val(ty, t)), build.o_value(Val(ty, s)))
        check(got is want, '%s-regexp-match(%r, %r)' % (ty, t, s), want, got)
        ctx.step()
    ctx.state()


# -- nested expressions -----------------------------------------------------------------
def leaves():
    s = lambda v: Val('string', v)
    act = des('action')
    return [Apply(F1 + 'string-equal', (s('a'), s('a'))),
            Apply(F1 + 'string-equal', (s('a'), s('b'))),
            Apply(F1 + 'string-equal', (
                Apply(F1 + 'string-one-and-only', (act,)), s('x'))),
            Apply(F1 + 'string-equal', (s('a'), Val('anyURI', 'a')))]


def trees(size, memo={}):
    """Boolean expressions with that many and / not nodes."""
    if size not in memo:
        out = []
        if size == 0:
            out = leaves()
        else:
            for t in trees(size - 1):
                out.append(Apply(F1 + 'not', (t,)))
                out.append(Apply(F1 + 'and', (t,)))
            for k in range(size):
                for a in trees(k):
                    for b in trees(size - 1 - k):
                        out.append(Apply(F1 + 'and', (a, b)))
            if size == 1:
                out.append(Apply(F1 + 'and', ()))
                for c in itertools.product(leaves(), repeat=3):
                    out.append(Apply(F1 + 'and', c))
        memo[size] = out
    return memo[size]


REQS = [request((), (), [attr('action', *v)]) for v in
        (('x',), ('y',), ('x', 'y'), ())]


def nested(ctx, job):
    n = 3 if ctx.thorough else 2
    reqs = [build.o_request(r) for r in REQS]
    for i, t in shard(enumerate(t for k in range(n + 1) for t in trees(k)), job):
        ctx.case('%d' % i, nest, ctx, t, reqs)


def nest(ctx, t, reqs):
    o = build.o_expr(t)
    for r, ro in zip(REQS, reqs):
        want = spec.eval_expr(t, spec.Env(r))
        for _ in range(2):
            try:
                got = a_arg(o.evaluate(ro))
            except Exception:
                got = E
            ctx.step()
            if not any(got is w or got == w and isinstance(w, str)
                       for w in want):
                raise Mismatch('%r for %r' % (t, r), sorted(map(repr, want)),
                               repr(got))
        ctx.outcome(got)
    ctx.state(len(REQS))


def composed(ctx, job):
    """Values computed by functions as arguments of functions."""
    s = lambda v: Val('string', v)
    cat = lambda *a: Apply(F2 + 'string-concatenate', a)
    oo = lambda b: Apply(F1 + 'string-one-and-only', (b,))
    bag = lambda *a: Apply(F1 + 'string-bag', a)
    alo = lambda a, b: Apply(F1 + 'string-at-least-one-member-of', (a, b))
    eq = lambda a, b: Apply(F1 + 'string-equal', (a, b))
    rxm = lambda a, b: Apply(F1 + 'string-regexp-match', (a, b))
    d, e = des('action'), des('subject')
    v0 = [s('x'), s('y'), oo(d), oo(e)]
    v1 = v0 + [cat(a, b) for a in v0 for b in v0] + [oo(bag(a)) for a in v0]
    b1 = [d, e] + [bag()] + [bag(a) for a in v1] + [
        bag(a, b) for a in v0 for b in v0]
    reqs = [request([attr('subject', *sv)], (), [attr('action', *av)])
            for sv in ((), ('x',), ('xx', 'y')) for av in (('x',), ('y',), ('x', 'y'))]
    ros = [build.o_request(r) for r in reqs]
    i = 0
    for op, xs in ((eq, v1), (rxm, v1), (alo, b1)):
        for a, b in itertools.product(xs, repeat=2):
            i += 1
            if shard_has(job, i):
                ctx.case('composed %d' % i, comp, ctx, op(a, b), reqs, ros)


def shard_has(job, i):
    k, n = map(int, job.split(':')[1].split('/'))
    return i % n == k


def comp(ctx, t, reqs, ros):
    o = build.o_expr(t)
    for r, ro in zip(reqs, ros):
        want = spec.eval_expr(t, spec.Env(r))
        try:
            got = a_arg(o.evaluate(ro))
        except Exception:
            got = E
        ctx.step()
        ctx.outcome(got)
        if not any(got is w or got == w and isinstance(w, str) for w in want):
            raise Mismatch('%r for %r' % (t, r), sorted(map(repr, want)),
                           repr(got))
    ctx.state(len(reqs))


# -- sizes -----------------------------------------------------------------------------
def long(ctx, job):
    """Many operands, long bags, long texts, deep nesting."""
    T = ctx.thorough
    sizes = (5, 9, 17, 33, 65, 130, 300, 1100) + (2100, 4200) * T
    s = lambda v: Val('string', v)
    cases = []
    for n in sizes:
        at = edges(n)
        for p in at if n > 40 else range(n):
            l = [True] * n
            l[p] = False
            cases.append(('and %d %d' % (n, p), F1 + 'and', tuple(l)))
            l[p] = s('x')
            cases.append(('and %d %d operand' % (n, p), F1 + 'and', tuple(l)))
            l = [s('v%d' % i) for i in range(n)]
            cases.append(('concatenate %d' % n, F2 + 'string-concatenate',
                          tuple(l)))
            l[p] = Val('anyURI', 'x')
            for f in (F2 + 'string-concatenate', F1 + 'string-bag'):
                cases.append(('%s %d %d operand' % (f, n, p), f, tuple(l)))
        cases.append(('and %d' % n, F1 + 'and', (True,) * n))
        for t, mk in (('string', str), ('anyURI', lambda i: 'u%d' % i),
                      ('integer', int), ('boolean', lambda i: i % 2 > 0),
                      ('double', lambda i: i / 3.)):
            vs = tuple(mk(i) for i in range(n))
            cases.append(('%s bag %d' % (t, n), F1 + t + '-bag', tuple(
                Val(t, v) for v in vs)))
            cases.append(('%s only %d' % (t, n), F1 + t + '-one-and-only',
                          (BagV(t, vs),)))
            cases.append(('%s only %d same' % (t, n), F1 + t + '-one-and-only',
                          (BagV(t, vs[:1] * n),)))
            if t == 'boolean':
                continue
            no = tuple(mk(n + i) for i in range(n))
            alo = F1 + t + '-at-least-one-member-of'
            cases.append(('%s none %d' % (t, n), alo, (BagV(t, vs), BagV(t, no))))
            for p in at:
                for q in (0, n // 2, n - 1):
                    m = no[:q] + (vs[p],) + no[q + 1:]
                    cases.append(('%s one %d %d %d' % (t, n, p, q), alo,
                                  (BagV(t, vs), BagV(t, m))))
        for t in ('string', 'anyURI', 'rfc822Name', 'x500Name'):
            if t in ('rfc822Name', 'x500Name'):
                continue
            x = long_text(n)
            for p in at:
                y = x[:p] + '#' + x[p + 1:]
                cases.append(('%s equal %d %d' % (t, n, p), F1 + t + '-equal',
                              (Val(t, x), Val(t, y))))
            for y in (x, x + ' ', x[:-1], x + x):
                cases.append(('%s equal %d %d' % (t, n, len(y)),
                              F1 + t + '-equal', (Val(t, x), Val(t, y))))
        for k in (n, 10 * n):
            a, b = s(long_text(k)), s(long_text(k, 1))
            cases.append(('concatenate long %d' % k, F2 + 'string-concatenate',
                          (a, b)))
            cases.append(('concatenate long uri %d' % k,
                          F2 + 'url-string-concatenate',
                          (Val('anyURI', long_text(k)), b)))
        i = 10 ** n
        for x, y in ((i, i), (i, i + 1), (-i, i), (i, -i), (i + 1, i)):
            cases.append(('integer equal %d' % n, F1 + 'integer-equal',
                          (Val('integer', x), Val('integer', y))))
    for i, (key, f, a) in enumerate(shard(cases, job)):
        ctx.case('%d %s' % (i, key), one, ctx, f, a)
    reqs = [build.o_request(r) for r in REQS]
    for n in (5, 10, 20, 40, 60):
        for leaf in leaves():
            for f in ('not', 'and', 'both'):
                t = leaf
                for i in range(n):
                    t = Apply(F1 + ('not' if f == 'not' or f == 'both' and i % 2
                                    else 'and'), (t,))
                ctx.case('nested %s %d %r' % (f, n, leaf), nest, ctx, t, reqs)
    # patterns and texts of that length
    for n in (40, 130, 300, 1100):
        x = long_text(n).replace('.', 'z')
        for p in (0, 1, n // 2, n - 2, n - 1):
            y = x[:p] + '#' + x[p + 1:]
            for pat, txt, want in (
                    (x, x, True), (x, y, False), (x, x + 'b', True), (x, 'q' + x, False),
                    ('^' + x + '$', x, True), ('^' + x + '$', x + 'a', False),
                    ('^' + x[:p] + '.' + x[p + 1:] + '$', y, True),
                    ('.*#', y, True), ('.*#', x, False), ('.*#$', y, p == n - 1),
                    ('#', y, p == 0), ('^.{%d}$' % n, x, True),
                    ('^.{%d}$' % (n - 1), x, False),
                    ('|'.join('^%s$' % x[:i] for i in range(1, n, 7)) + '|^q$',
                     y[:8] if p > 8 else 'q', True)):
                ctx.case('pattern %d %d %r' % (n, p, pat[:20]), fixed, ctx, pat,
                         txt, want)


def run(ctx):
    globals()[base(ctx.job)](ctx, ctx.job)
