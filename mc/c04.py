"""Target matching structure."""
import itertools

from mc import build, custom, spec
from mc.core import check
from mc.pdpcheck import Requests, base, edges, run_policy, shard
from mc.spec import *

M = 'urn:mc:m'


def compositions(n):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for rest in compositions(n - k):
            yield (k,) + rest


def shapes(total):
    """Every target shape with that many matches: per section, the sizes of
    its entries."""
    for split in itertools.product(range(total + 1), repeat=4):
        if sum(split) == total:
            for sh in itertools.product(*[list(compositions(k)) for k in split]):
                yield sh


def shape_target(sh, mbp):
    """Match i looks at attribute i of its section."""
    i = 0
    secs = {}
    cats = []
    for cat, entries in zip(SECTIONS, sh):
        out = []
        for size in entries:
            ms = []
            for _ in range(size):
                ms.append(Match(F1 + 'string-equal', val('v'),
                                des(cat, '%s:%d' % (M, i), mbp=mbp)))
                cats.append(cat)
                i += 1
            out.append(tuple(ms))
        secs[cat] = out
    return target(**secs), cats


def shape_request(cats, vec):
    at = {c: [] for c in SECTIONS}
    for i, (c, v) in enumerate(zip(cats, vec)):
        if v != 'E':
            at[c].append(attr(c, v, id='%s:%d' % (M, i)))
    return request(**at)


def structure(ctx, job):
    cache = Requests()
    top = 5 if ctx.thorough else 4
    styles = itertools.cycle(build.STYLES)
    for sh in shard((s for n in range(top + 1) for s in shapes(n)), job):
        t, cats = shape_target(sh, True)
        n = len(cats)
        vals = ('v', 'w', 'E') if n <= 4 else ('v', 'w')
        reqs = [shape_request(cats, vec)
                for vec in itertools.product(vals, repeat=n)]
        where = Policy('p', 'deny-overrides', t, (Rule('r', 'P', None, None),))
        ctx.case('policy|%r' % (sh,), run_policy, ctx, where, reqs, cache,
                 ('x',), next(styles), None, None, 1)
        where = Policy('p', 'first-applicable', None,
                       (Rule('r', 'D', t, None), Rule('r2', 'P', None, None)))
        ctx.case('rule|%r' % (sh,), run_policy, ctx, where, reqs, cache, ('o',),
                 build.PLAIN, None, None, 1 if n > 3 else 2)


def bags(ctx, job):
    """One match against every bag of <=4 values over {v, w, x}."""
    cache = Requests()
    bags = [b for n in range(5) for b in itertools.product('vwx', repeat=n)]
    for cat in SECTIONS:
        for mbp in (False, True):
            for fn in ('string-equal', 'string-regexp-match'):
                for pv in ('v', 'w'):
                    t = target(**{cat: [(Match(F1 + fn, val(pv), des(
                        cat, M, mbp=mbp)),)]})
                    p = Policy('p', 'deny-overrides', t,
                               (Rule('r', 'P', None, None),))
                    reqs = [request(**{cat: [attr(cat, *b, id=M)] if b else []})
                            for b in bags]
                    ctx.case('%s|%s|%s|%s' % (cat, mbp, fn, pv), run_policy, ctx,
                             p, reqs, cache)


def multi(ctx, job):
    """Two entries x two matches on the same attribute, every subset of values."""
    cache = Requests()
    opts = ('a', 'b', 'c')
    for cat in shard(SECTIONS, job):
        for vs in itertools.product(opts, repeat=4):
            t = target(**{cat: [
                (simple_match(cat, vs[0], id=None) if False else
                 Match(F1 + 'string-equal', val(vs[0]), des(cat)),
                 Match(F1 + 'string-equal', val(vs[1]), des(cat))),
                (Match(F1 + 'string-equal', val(vs[2]), des(cat)),
                 Match(F1 + 'string-equal', val(vs[3]), des(cat)))]})
            p = Policy('p', 'deny-overrides', None, (Rule('r', 'P', t, None),))
            reqs = [request(**{cat: [attr(cat, *s)] if s else []})
                    for n in range(4) for s in itertools.combinations(opts, n)]
            ctx.case('%s|%s' % (cat, ''.join(vs)), run_policy, ctx, p, reqs,
                     cache, ('x',))


def direction(ctx, job):
    """The policy's value is the first argument of the match function."""
    from mc import custom
    calls = []

    def first(a, b):
        calls.append((a.value, b.value))
        return a.value == 'policy' and b.value == 'request'
    fid = custom.register('c04:direction', first, lambda a, b:
                          a.value == 'policy' and b.value == 'request')
    cache = Requests()
    for cat in SECTIONS:
        for pv, rv in itertools.product(('policy', 'request'), repeat=2):
            t = target(**{cat: [(Match(fid, val(pv), des(cat)),)]})
            p = Policy('p', 'deny-overrides', t, (Rule('r', 'P', None, None),))
            ctx.case('%s|%s|%s' % (cat, pv, rv), run_policy, ctx, p,
                     [request(**{cat: [attr(cat, rv)]})], cache)
        for pv, rv in itertools.product(('a.*', 'ab', 'abc', '.*'), repeat=2):
            t = target(**{cat: [(Match(F1 + 'string-regexp-match', val(pv),
                                       des(cat)),)]})
            p = Policy('p', 'deny-overrides', t, (Rule('r', 'P', None, None),))
            ctx.case('%s|re|%s|%s' % (cat, pv, rv), run_policy, ctx, p,
                     [request(**{cat: [attr(cat, rv)]})], cache)


def cross(ctx, job):
    """A designator of any category inside any section's Match (programmatic
    use; the schema ties them)."""
    cache = Requests()
    for sec, cat in itertools.product(SECTIONS, repeat=2):
        t = target(**{sec: [(Match(F1 + 'string-equal', val('v'), des(cat)),)]})
        p = Policy('p', 'deny-overrides', t, (Rule('r', 'P', None, None),))
        reqs = [request(**{c: [attr(c, v)]}) for c in SECTIONS for v in 'vw']
        ctx.case('%s|%s' % (sec, cat), run_policy, ctx, p, reqs, cache,
                 ('x', 'o') if sec == cat else ('o',))


def long(ctx, job):
    """Entries of many matches and sections of many entries, one match or entry
    different from the others at every position."""
    cache = Requests()
    m = {v: Match(F1 + 'string-equal', val(v), None) for v in 'vw'}

    def mk(cat, kind):
        if kind == 'E':
            return Match(F1 + 'string-equal', val('v'), des(
                cat, M + ':missing', mbp=True))
        return m[kind]._replace(ref=des(cat))
    todo = [(cat, n, pos, most, odd) for cat in SECTIONS
            for n in (5, 9, 17, 40) for pos in range(n)
            for most, odd in ('vw', 'vE', 'wv', 'wE')]
    todo += [(cat, 130, pos, most, odd) for cat in SECTIONS
             for pos in (0, 64, 127, 128, 129) for most, odd in ('vw', 'wv')]
    todo += [(cat, n, pos, most, odd) for cat in SECTIONS
             for n in (300, 1100) + (2100, 4200) * ctx.thorough
             for pos in edges(n) for most, odd in ('vw', 'wv')]
    for cat, n, pos, most, odd in shard(todo, job):
        l = [mk(cat, most)] * n
        l[pos] = mk(cat, odd)
        reqs = [request(**{cat: [attr(cat, 'v')]})]
        for what, entries in (('matches', [tuple(l)]),
                              ('entries', [(x,) for x in l])):
            t = target(**{cat: entries})
            for q in (Policy('p', 'deny-overrides', t, (
                    Rule('r', 'P', None, None),)),
                      Policy('p', 'first-applicable', None, (
                          Rule('r', 'D', t, None), Rule('s', 'P', None, None)))):
                ctx.case('%s|%d|%d|%s%s|%s' % (cat, n, pos, most, odd, what),
                         run_policy, ctx, q, reqs, cache, ('o',), build.PLAIN,
                         None, None, 1)


def longbag(ctx, job):
    """Many values of an attribute, one of them different."""
    def touchy(a, b):
        if b.value == 'x':
            raise ValueError('not this one')
        return a.value == b.value

    def model(a, b):
        if b.value == 'x':
            raise Fail('not this one')
        return a.value == b.value
    fid = custom.register('touchy', touchy, model)
    cache = Requests()
    ns = (130, 300, 1100) + (2100, 4200) * ctx.thorough
    todo = [(cat, n, pos, odd, how) for cat in SECTIONS for n in ns
            for pos in edges(n) for odd in 'wvx' for how in range(2)
            if odd != 'w' or not pos]
    for cat, n, pos, odd, how in shard(todo, job):
        vs = ['w'] * n
        vs[pos] = odd
        one = attr(cat, 'v')
        attrs = [one._replace(values=tuple(vs))] if how == 0 else [
            one._replace(values=(v,)) for v in vs]
        q = Policy('p', 'first-applicable', target(**{cat: [(
            Match(fid, val('v'), des(cat)),)]}), (
                Rule('r', 'P', target(**{cat: [(
                    Match(F1 + 'string-equal', val('w'), des(cat)),)]}), None),))
        ctx.case('%s|%d|%d|%s|%d' % (cat, n, pos, odd, how), run_policy, ctx, q,
                 [request(**{cat: attrs})], cache, ('o',), build.PLAIN, None,
                 None, 1)


def run(ctx):
    globals()[base(ctx.job)](ctx, ctx.job)
