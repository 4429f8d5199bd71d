"""Attribute selectors yield exactly the text of the elements their path
selects in the request."""
import itertools
import logging

from mc import build, spec
from mc.c08 import long_text
from mc.build import Node, PLAIN
from mc.core import Mismatch, check
from mc.pdpcheck import base, edges, shard
from mc.spec import *

NS = '{%s}' % build.CONTEXT_NS
EQ = F1 + 'string-equal'
BAD = 'no text'


# -- reference evaluation of paths over Node trees --------------------------------
# path: list of (axis, tag, predicate); axis '/' child or '//' descendant,
# predicate None, ('@', a), ('@=', a, v), ('n', k), ('last',), ('c', tag),
# ('c=', tag, text)
def kids(n):
    return [c for c in n.children if isinstance(c, Node)]


def descendants(n):
    for c in kids(n):
        yield c
        for d in descendants(c):
            yield d


def whole_text(n):
    return ''.join(whole_text(c) if isinstance(c, Node) else c
                   for c in n.children)


def own_text(n):
    out = []
    for c in n.children:
        if isinstance(c, Node):
            break
        out.append(c)
    return ''.join(out)


def named(nodes, tag):
    return [n for n in nodes if tag == '*' or n.tag == tag]


def step(n, tag, pred):
    """Children of n that the step selects."""
    cs = named(kids(n), tag)
    if pred is None:
        return cs
    if pred[0] == 'n':
        return cs[pred[1] - 1:pred[1]]
    if pred[0] == 'last':
        return cs[-1:]
    out = []
    for c in cs:
        if pred[0] == '@':
            ok = pred[1] in dict(c.attrs)
        elif pred[0] == '@=':
            ok = dict(c.attrs).get(pred[1]) == pred[2]
        elif pred[0] == 'c':
            ok = bool(named(kids(c), pred[1]))
        else:
            ok = any(whole_text(d) == pred[2] for d in named(kids(c), pred[1]))
        if ok:
            out.append(c)
    return out


def select(root, path):
    nodes = [root]
    for axis, tag, pred in path:
        out, seen = [], set()
        for n in nodes:
            for parent in ([n] if axis == '/' else
                           itertools.chain([n], descendants(n))):
                for c in step(parent, tag, pred):
                    if id(c) not in seen:
                        seen.add(id(c))
                        out.append(c)
        nodes = out
    return nodes


def texts_of(root, path):
    """Multiset (sorted list) of the texts; None when one has no text, which
    the property leaves open."""
    out = [own_text(n) for n in select(root, path)]
    return None if '' in [x.strip() for x in out] else sorted(out)


def write(path, first, ns):
    """Path expression; first: how a leading child / descendant axis is
    written."""
    out = []
    for i, (axis, tag, pred) in enumerate(path):
        t = tag if tag == '*' else ns + tag
        if pred is None:
            p = ''
        elif pred[0] == '@':
            p = '[@%s]' % pred[1]
        elif pred[0] == '@=':
            p = "[@%s='%s']" % pred[1:]
        elif pred[0] == 'n':
            p = '[%d]' % pred[1]
        elif pred[0] == 'last':
            p = '[last()]'
        elif pred[0] == 'c':
            p = '[%s]' % (ns + pred[1])
        else:
            p = "[%s='%s']" % (ns + pred[1], pred[2])
        if i == 0:
            a = {'/': ('', './', '/'), '//': ('.//', '//')}[axis]
            a = a[first % len(a)]
        else:
            a = axis
        out.append(a + t + p)
    return ''.join(out)


# -- trees and paths ---------------------------------------------------------------
def forests(n, tags=('x', 'y')):
    """Ordered forests of n nodes."""
    if n == 0:
        yield ()
        return
    for k in range(n):
        for inner in forests(k, tags):
            for rest in forests(n - 1 - k, tags):
                for t in tags:
                    yield ((t, inner),) + rest


ATTRS = ((), (('a', '1'),), (('a', '2'),), (('a', '1'), ('b', '1')))


def trees(thorough):
    """(name, content)"""
    for n in range(4):
        for i, f in enumerate(forests(n)):
            combos = itertools.product(range(3), repeat=n) if n < 3 else \
                [tuple((i + j) % 4 for j in range(n))]
            for at in combos:
                yield 'n%d.%d%r' % (n, i, at), tree(f, at)
    for n in ((4, 5) if thorough else (4,)):
        for i, f in enumerate(forests(n)):
            yield 'n%d.%d' % (n, i), tree(f, tuple((i + j) % 4
                                                   for j in range(n)))


def tree(f, at, texts=None):
    cnt = itertools.count()

    def mk(t):
        i = next(cnt)
        return Node(t[0], ATTRS[at[i]], 't%d' % i if texts is None else
                    texts[i], *[mk(c) for c in t[1]])
    return Node('ResourceContent', [], *[mk(t) for t in f])


def preds(tag):
    yield None
    yield ('@', 'a')
    yield ('@=', 'a', '1')
    yield ('c', 'y')
    yield ('c=', 'x', 't1')
    if tag != '*':
        yield ('n', 1)
        yield ('n', 2)
        yield ('last',)


RC = 'ResourceContent'
PREFIXES = [[('//', RC, None)], [('/', 'Resource', None), ('/', RC, None)]]


def paths(nsteps):
    steps = [(a, t, p) for a in ('/', '//') for t in ('x', 'y', '*')
             for p in preds(t)]
    for k in range(1, nsteps + 1):
        for st in itertools.product(steps, repeat=k):
            yield PREFIXES[k % 2] + list(st)
    # anywhere in the request
    for t in ('x', 'y'):
        for p in preds(t):
            for st in [()] + [(s,) for s in steps]:
                yield [('//', t, p)] + list(st)
    for t in ('x', 'y', 'Resource', RC):
        yield [('/', t, None)]


def allpaths(thorough):
    """All of two steps; quick: those of two steps thinned out evenly."""
    ps = list(paths(2))
    one = [p for p in ps if len(p) < 4]
    two = [p for p in ps if len(p) >= 4]
    return one, two


def request_of(content):
    a = Attr('urn:a', 'string', None, ('v',))
    return Request(((None, (a,)),), ((content, (a,)),), (a,), ())


def parsed(req, st):
    """(library request with its selector, Node tree)"""
    L = build.lib()
    r = build.x_request(req, st)
    r.attributeSelector = L.EtreeXPathSelector(r.elem)
    return r, build.request_node(req)


STY = [build.STYLES[i] for i in (0, 1, 4, 6, 9, 2)]


def path_job(ctx, job):
    one, two = allpaths(ctx.thorough)
    for i, (name, t) in enumerate(shard(trees(ctx.thorough), job)):
        ps = one + (two if ctx.thorough else two[i % 6::6])
        st = STY[i % 6]
        ctx.sample(name)
        ctx.case(name, one_tree, ctx, t, st, ps)


def one_tree(ctx, content, st, ps):
    r, root = parsed(request_of(content), st)
    ns = NS if st.ns else ''
    for k, p in enumerate(ps):
        for f in range(3):
            s = write(p, f, ns)
            want = texts_of(root, p)
            if want is None:
                continue
            got = r.attributeSelector.selectText(s)
            if sorted(got) != want:
                raise Mismatch('texts selected by %s' % s, want, sorted(got))
            ctx.step()
            if k % 4 and not ctx.thorough:
                break
        if k % 37 == 0 and want is not None:
            evaluate(r, s, want)
        ctx.outcome(len(want) if want is not None else 'open')
    ctx.state()


def evaluate(r, path, want):
    """Through an AttributeSelector object."""
    for t in ('string', 'anyURI'):
        for mbp in (False, True, None):
            s = build.o_expr(Sel(path, t, bool(mbp)))
            if mbp is None:
                s = build.lib().AttributeSelector()
                s.requestContextPath = path
                s.dataType = TYPE[t]
            try:
                bag = s.evaluate(r)
            except Exception as e:
                check(mbp and not want, 'selector %s failed: %s' % (path, e),
                      want, type(e).__name__)
                continue
            check(want or not mbp, 'MustBePresent without values', 'error', want)
            got = sorted(v.value for v in bag)
            check(got == want, 'bag of ' + path, want, got)
            for v in bag:
                check(type(v) is build.lib().valueClass(TYPE[t]) and
                      v.dataType == TYPE[t], 'type of a selected value', t,
                      repr(v))


# -- selecting request attributes, all styles --------------------------------------
def attributes(ctx, job):
    reqs = []
    trap = Node(RC, [], Node('Attribute', [('AttributeId', 'urn:a0')], Node(
        'AttributeValue', [], 'trap')))
    for cats in ((None,), (None, 'urn:c'), ('urn:c', 'urn:c', 'urn:d')):
        subjects = tuple((c, tuple(
            Attr('urn:a%d' % (i % 2), 'string', iss, ('v%d%d' % (k, i), 'w'))
            for i, iss in enumerate((None, 'i', 'j'))))
            for k, c in enumerate(cats))
        for content in (None, trap):
            reqs.append(Request(subjects, (
                (content, (Attr('urn:a0', 'string', None, ('r',)),)),),
                (Attr('urn:a1', 'anyURI', None, ('act',)),), ()))
    ap = (None, ('@=', 'AttributeId', 'urn:a0'), ('@=', 'AttributeId', 'urn:a1'),
          ('@', 'Issuer'), ('@=', 'Issuer', 'j'), ('n', 1), ('n', 3), ('last',))
    sp = (None, ('@', 'SubjectCategory'), ('@=', 'SubjectCategory', 'urn:c'),
          ('n', 2), ('last',))
    ps = []
    for sec in ('Subject', 'Resource', 'Action', 'Environment', '*'):
        for s in sp if sec == 'Subject' else (None,):
            for a in ap:
                for v in (None, ('n', 1), ('n', 2), ('last',)):
                    for ax in itertools.product(('/', '//'), repeat=3):
                        ps.append([(ax[0], sec, s), (ax[1], 'Attribute', a),
                                   (ax[2], 'AttributeValue', v)])
    for i, req in enumerate(reqs):
        for st in build.STYLES:
            if st.extras:
                continue
            key = '%d %s' % (i, st.name)
            ctx.case(key, select_all, ctx, req, st, ps)


def select_all(ctx, req, st, ps):
    r, root = parsed(req, st)
    ns = NS if st.ns else ''
    for k, p in enumerate(ps):
        s = write(p, k, ns)
        want = texts_of(root, p)
        if want is None:
            continue
        got = r.attributeSelector.selectText(s)
        if sorted(got) != want:
            raise Mismatch('texts selected by %s' % s, want, sorted(got))
        ctx.step()
    ctx.state()


# -- texts -------------------------------------------------------------------------
def texts(ctx, job):
    from mc.c08 import TEXTS, representable
    for s in TEXTS:
        if not s.strip():
            continue
        ctx.case(repr(s), one_text, ctx, s,
                 [st for st in build.STYLES if representable(s, st)])


def one_text(ctx, s, sts):
    req = request_of(Node(RC, [], Node('x', [('a', s)], s), Node('x', [], 'o'),
                          Node('y', [], s, Node('x', [], 'sub'))))
    path = [('//', RC, None), ('/', 'x', None)]
    for st in sts:
        r, root = parsed(req, st)
        ns = NS if st.ns else ''
        for p in ([('//', 'x', None)], [('//', 'y', None)], path):
            w = write(p, 0, ns)
            want = texts_of(root, p)
            got = sorted(r.attributeSelector.selectText(w))
            check(got == want, 'texts selected by %s (%s)' % (w, st.name), want,
                  got)
            evaluate(r, w, want)
            ctx.step()
    ctx.state()


# -- decisions -----------------------------------------------------------------------
def exprs(path):
    for t in ('string', 'anyURI'):
        for mbp in (False, True):
            s = Sel(path, t, mbp)
            yield Apply(EQ if t == 'string' else F1 + 'anyURI-equal', (
                Val(t, 'v'), Apply(F1 + t + '-one-and-only', (s,))))
            yield Apply(F1 + t + '-at-least-one-member-of', (
                Apply(F1 + t + '-bag', (Val(t, 'v'), Val(t, 'w'))), s))
            yield Apply(F1 + 'not', (Apply(
                F1 + t + '-at-least-one-member-of', (s, Sel(path, t, not mbp))),))
            yield Apply(F1 + 'string-at-least-one-member-of', (
                Des('subject', 'urn:a', 'string', None, False), s))


def policies(path):
    n = itertools.count()
    for c in exprs(path):
        for e in 'PD':
            yield Policy('p%d' % next(n), ALGS[next(n) % 3], None, (
                Rule('r', e, None, c), Rule('s', 'PD'[e == 'P'], None, None)))
    for cat in SECTIONS:
        for t in ('string', 'anyURI'):
            for mbp in (False, True):
                for v in ('v', 'w'):
                    m = Match(F1 + t + '-equal', Val(t, v), Sel(path, t, mbp))
                    tt = target(**{cat: ((m,),)})
                    yield Policy('p%d' % next(n), ALGS[2], tt, (
                        Rule('r', 'P', None, None),))
                    yield Policy('p%d' % next(n), ALGS[next(n) % 3], None, (
                        Rule('r', 'D', tt, None), Rule('s', 'P', None, None)))
                    yield PolicySet('p%d' % next(n), ALGS[1], target(**{
                        cat: ((m,), (m._replace(val=Val(t, 'z')),))}), (
                            Policy('q', ALGS[0], None, (
                                Rule('r', 'P', None, None),)),))


def bags(k):
    for vs in itertools.product(('v', 'w', 'V'), repeat=k):
        yield vs


def decisions(ctx, job):
    reqs = []
    for k in range(4):
        for vs in bags(k):
            reqs.append(request_of(Node(RC, [], Node('y', [], 'v', *[
                Node('x', [('i', str(i))], v) for i, v in enumerate(vs)]))))
    reqs.append(request_of(None))
    reqs.append(request_of(Node(RC, [], Node('y', [], Node('z', [], Node(
        'x', [], 'v'))), Node('y', [], Node('x', [], 'w')))))
    # further subjects, resources and attributes
    for k in (0, 1, 3):
        r = request_of(Node(RC, [], Node('y', [], 'v', *[
            Node('x', [('i', str(i))], 'vwV'[i]) for i in range(k)])))
        reqs += [r._replace(subjects=r.subjects * 2),
                 r._replace(subjects=()),
                 r._replace(subjects=r.subjects + (('urn:c', ()),) * 3),
                 r._replace(resources=r.resources * 2),
                 r._replace(resources=((None, ()),) * 2 + r.resources),
                 r._replace(environment=r.action, action=()),
                 r._replace(environment=None)]
    plist = [[('//', 'x', None)], [('//', 'y', None), ('/', 'x', None)],
             [('/', 'Resource', None), ('/', RC, None), ('/', 'y', None),
              ('/', 'x', ('n', 1))], [('/', 'x', None)],
             [('//', 'x', ('@=', 'i', '1'))]]
    todo = ((i, p, q) for i, p in enumerate(plist)
            for q in policies(write(p, i, NS)))
    for i, p, q in shard(todo, job):
        ctx.sample(repr(q)[:300])
        ctx.case('%d %s' % (i, q.id), one_policy, ctx, q, p, reqs, i)


CACHE = {}


def library_request(req, variant):
    k = (req, variant)
    if k not in CACHE:
        if variant == 'x':
            CACHE[k] = parsed(req, build.PLAIN)[0]
        else:
            # made by hand, with a selector over a separate document
            o = build.o_request(req)
            L = build.lib()
            o.attributeSelector = L.EtreeXPathSelector(L.ET.fromstring(
                build.request_bytes(req, build.STYLES[1])))
            CACHE[k] = o
    return CACHE[k]


def one_policy(ctx, q, p, reqs, i):
    pdps = [build.x_pdp(q), build.o_pdp(q)]
    for req in reqs:
        root = build.request_node(req)
        env = spec.Env(req, select=lambda path: [own_text(n) for n in select(
            root, p)])
        want = spec.decide(q, env)
        for pdp, v in itertools.product(pdps, 'xo'):
            got = build.decision_of(pdp.evaluate(library_request(req, v)))
            if got not in want:
                raise Mismatch('decision of %r for %r (%s)' % (q, req, v),
                               sorted(want), got)
            ctx.outcome(got)
            ctx.step()
    # a request without a selector fails
    bare = build.o_request(reqs[0])
    want = spec.decide(q, spec.Env(reqs[0]))
    got = build.decision_of(pdps[0].evaluate(bare))
    check(got in want, 'decision without a selector', want, got)
    ctx.state()


# -- data types -----------------------------------------------------------------------
def types(ctx, job):
    strs = ('string', 'anyURI', 'x500Name', 'rfc822Name', 'ipAddress', 'dnsName')
    for t in sorted(TYPE) + ['', 'string', XS, XS + 'String', 'urn:none']:
        for mbp in (False, True):
            for n in range(3):
                ctx.case('%s %s %d' % (t, mbp, n), typed, ctx, t, mbp, n,
                         t in strs)


def typed(ctx, t, mbp, n, good):
    for txt in ('v', '12', 'true', '1.5'):
        r, root = parsed(request_of(Node(RC, [], *[
            Node('x', [], txt) for _ in range(n)])), build.PLAIN)
        s = build.o_expr(Sel('//%sx' % NS, t, mbp))
        try:
            bag = s.evaluate(r)
        except Exception as e:
            check(not good or (mbp and not n), 'selector of type %s failed: %s' %
                  (t, e), n, type(e).__name__)
        else:
            check(t in TYPE, 'unknown data type', 'error', t)
            check(n or not mbp, 'MustBePresent', 'error', 'bag')
            check(len(bag) == n, 'number of values', n, len(bag))
            for v in bag:
                check(v.dataType == TYPE[t], 'type', TYPE[t], v.dataType)
                check(not good or v.value == txt, 'value', txt, v.value)
                check(good or not isinstance(v.value, str),
                      'text as value of type ' + t, 'native value or error',
                      v.value)
        ctx.step()
    ctx.state()


# -- selectors of the application ---------------------------------------------------
def custom(ctx, job):
    for k in range(4):
        for vs in bags(k):
            for mbp in (False, True):
                ctx.case('%r %s' % (vs, mbp), own_selector, ctx, vs, mbp)
    for i, bad in enumerate((lambda p: ['v', None], lambda p: [1], lambda p: None,
                             lambda p: [b'v'], lambda p: 1 / 0,
                             lambda p: ['v', ['w']], lambda p: [True])):
        ctx.case('bad %d' % i, bad_selector, ctx, bad)


def interface():
    from ndg.xacml.utils.xpath_selector import XPathSelectorInterface
    return XPathSelectorInterface


def own_selector(ctx, vs, mbp):
    L = build.lib()
    for path in ('//x', '/a/b', 'text', '', ' . ', "//x[@a='1']/@b", u'\xe9',
                 './/x', '../y'):
        asked = []

        class S(interface()):
            def __init__(self):
                pass

            def selectText(self, p):
                asked.append(p)
                return list(vs)
        for q in policies(path):
            req = build.o_request(request_of(None))
            req.attributeSelector = S()
            del asked[:]
            got = build.decision_of(build.o_pdp(q).evaluate(req))
            want = spec.decide(q, spec.Env(request_of(None),
                                           select=lambda p: list(vs)))
            check(got in want, 'decision of %r' % (q,), sorted(want), got)
            check(set(asked) <= {path}, 'path asked for', path, asked)
            ctx.step()
    ctx.state()


def bad_selector(ctx, fn):
    class S(interface()):
        def __init__(self):
            pass

        def selectText(self, p):
            return fn(p)
    for q in policies('//x'):
        if isinstance(q, Policy) and q.target is None and q.rules[0].cond is not None:
            q = q._replace(alg='first-applicable')
            req = build.o_request(request_of(None))
            req.attributeSelector = S()
            got = build.decision_of(build.o_pdp(q).evaluate(req))
            check(got == 'I', 'decision with a failing selector', 'I', got)
            ctx.step()
    ctx.state()


# -- histories ----------------------------------------------------------------------
def history(ctx, job):
    """Every order of evaluating requests with one decision point; contents
    changed in between."""
    path = '//%sx' % NS
    m = lambda v: Match(EQ, val(v), Sel(path, 'string', False))
    q = Policy('p', 'first-applicable', None, (
        Rule('r', 'P', target(resource=((m('v'),),)), None),
        Rule('s', 'D', target(subject=((m('w'),),)), None),
        Rule('t', 'P', None, Apply(EQ, (val('u'), Apply(
            F1 + 'string-one-and-only', (Sel(path, 'string', True),)))))))
    ops = [('eval', i) for i in range(3)] + [('set', i, v) for i in range(2)
                                             for v in 'vwu'] + [
        ('add', 0), ('swap',), ('level',)]
    n = 4 if ctx.thorough else 3
    for h in shard(itertools.product(ops, repeat=n), job):
        ctx.case(repr(h), one_history, ctx, q, h)


def one_history(ctx, q, h):
    L = build.lib()
    vals = [['v'], ['w'], []]
    pdp = build.x_pdp(q)

    def make(vs):
        return parsed(request_of(Node(RC, [], *[Node('x', [], v)
                                                for v in vs])), build.PLAIN)[0]
    rs = [make(vs) for vs in vals]

    def check_one(i):
        req = request_of(Node(RC, [], *[Node('x', [], v) for v in vals[i]]))
        want = spec.decide(q, spec.Env(req, select=lambda p: vals[i]))
        got = build.decision_of(pdp.evaluate(rs[i]))
        check(got in want, 'decision for request %d with %r' % (i, vals[i]),
              sorted(want), got)
        ctx.step()
    root = logging.getLogger()
    try:
        for op in list(h) + [('eval', 0), ('eval', 1), ('eval', 2)]:
            if op[0] == 'eval':
                check_one(op[1])
            elif op[0] == 'set':
                for e in rs[op[1]].attributeSelector.contextElem.iter(NS + 'x'):
                    e.text = op[2]
                vals[op[1]] = [op[2]] * len(vals[op[1]])
            elif op[0] == 'add':
                c = [e for e in rs[0].attributeSelector.contextElem.iter(NS + RC)][0]
                L.ET.SubElement(c, NS + 'x').text = 'v'
                vals[0] = vals[0] + ['v']
            elif op[0] == 'swap':
                rs[0].attributeSelector, rs[1].attributeSelector = (
                    rs[1].attributeSelector, rs[0].attributeSelector)
                rs[0], rs[1] = rs[1], rs[0]
            else:
                root.setLevel(logging.DEBUG)
    finally:
        root.setLevel(logging.CRITICAL)
    ctx.state()


# -- attribute and text nodes ------------------------------------------------------
ENDS = ('/@a', '/@b', '/@*', '//@a', '//@*', '/text()', '//text()', '/..',
        ' | //x', ' | //@b')


def ends_of(root, p, end):
    """What the path, continued so, selects: a list of texts."""
    ns = select(root, p)
    if end == '/..':
        out = []
        for _, n in root.walk():
            if any(c is x for c in kids(n) for x in ns):
                out.append(n)
        return [own_text(n) for n in out]
    if end == ' | //x':
        more = [n for n in select(root, [('//', 'x', None)])
                if not any(n is x for x in ns)]
        return [own_text(n) for n in ns + more]
    if end == ' | //@b':
        return [own_text(n) for n in ns] + [
            dict(n.attrs)['b'] for _, n in root.walk() if 'b' in dict(n.attrs)]
    nodes = list(ns)
    if end.startswith('//'):
        for n in ns:
            for d in descendants(n):
                if not any(d is x for x in nodes):
                    nodes.append(d)
    if end.endswith('text()'):
        return [c for n in nodes for c in n.children
                if not isinstance(c, Node) and c]
    name = end.split('@')[1]
    return [v for n in nodes for k, v in n.attrs if name in ('*', k)]


def ends(ctx, job):
    ps = list(paths(1))
    for i, (name, t) in enumerate(shard(trees(False), job)):
        ctx.case(name, one_ends, ctx, t, (PLAIN, build.STYLES[1])[i % 2],
                 ps[i % 3::3] if not ctx.thorough else ps, i)
    for name, t in (('empty attribute', Node(RC, [('a', '')], Node(
            'x', [('a', ''), ('b', ' ')], 't'))),
                    ('numbers', Node(RC, [('a', '0')], Node('x', [(
                        'a', '00'), ('b', 'None')], '0')))):
        ctx.case(name, one_ends, ctx, t, PLAIN, ps, 0)


def one_ends(ctx, content, st, ps, i):
    r, root = parsed(request_of(content), st)
    ns = NS if st.ns else ''
    for k, p in enumerate(ps):
        for j, end in enumerate(ENDS):
            if (i + k + j) % 3 and not ctx.thorough:
                continue
            want = sorted(ends_of(root, p, end))
            if '|' in end or end == '/..':
                if '' in [x.strip() for x in want]:
                    continue
            s = write(p, (i + j) % 3 if '|' not in end else 1, ns) + \
                end.replace('//x', '//%sx' % ns)
            got = sorted(r.attributeSelector.selectText(s))
            check(got == want, 'texts selected by %s' % s, want, got)
            if k % 11 == 0 and '' not in want:
                evaluate(r, s, want)
            ctx.step()
            ctx.outcome(len(want))
    ctx.state()


# -- sizes -----------------------------------------------------------------------------
def long(ctx, job):
    """Many elements, deep ones, long texts."""
    ps = list(paths(2))[::31]
    for i, n in enumerate((130, 300, 1100) + (2100,) * ctx.thorough):
        flat = tuple(('x' if k % 3 else 'y', ()) for k in range(n))
        fork = tuple(('x', (('y', ()), ('x', ()))) for k in range(n // 3))
        for name, f in (('flat', flat), ('fork', fork)):
            t = tree(f, [k % 4 for k in range(n)])
            ctx.case('%s %d' % (name, n), one_tree, ctx, t, STY[i % 3], ps)
    for i, n in enumerate((10, 30, 60)):
        f = ()
        for k in range(n):
            f = (('xy'[k % 2], f),) if k % 3 else (('y', ()), ('x', f))
        t = tree(f, [k % 4 for k in range(2 * n)])
        ctx.case('deep %d' % n, one_tree, ctx, t, STY[i % 3], ps)
    for n in (1000, 1025, 4097, 8193, 32769, 65537):
        ctx.case('text of %d' % n, one_text, ctx, long_text(n), STY)


def run(ctx):
    {'paths': path_job}.get(base(ctx.job), globals().get(base(ctx.job)))(
        ctx, ctx.job)
