"""Requests and responses written to XML mean the same when read again."""
import copy
import itertools
import xml.etree.ElementTree as Std

from mc import build, c13, spec
from mc.build import Node
from mc.c08 import TEXTS, representable
from mc.core import Mismatch, check
from mc.pdpcheck import base, shard
from mc.spec import *

NS = '{%s}' % build.CONTEXT_NS
DECISIONS = ('Permit', 'Deny', 'Indeterminate', 'NotApplicable')


# -- what a document says, by an independent reader ------------------------------
def tree_of(e):
    """(tag, attributes, text, children) of a parsed element."""
    return (e.tag, tuple(sorted(e.attrib.items())), e.text or '',
            tuple(tree_of(c) for c in e))


def tree_expected(n, content=False):
    return (NS + n.tag, tuple(sorted(n.attrs)),
            ''.join(c for c in n.children if not isinstance(c, Node)),
            tuple(tree_expected(c) for c in n.children if isinstance(c, Node)))


def stripped(t):
    return (t[0], t[1], t[2].strip(), tuple(stripped(c) for c in t[3]))


def normal(n):
    """Resource content comes before the attributes."""
    return n


def written(cls, obj):
    """Bytes of an object, which has to be the same each time."""
    L = build.lib()
    e = cls.toXML(obj)
    check(L.ET.iselement(e), 'not an element', 'element', type(e).__name__)
    a = L.ET.tostring(e)
    b = L.ET.tostring(cls.toXML(obj))
    check(a == b, 'written differently the second time', a, b)
    return e, a


def pretty(e, want):
    from ndg.xacml.utils.etree import prettyPrint
    L = build.lib()
    before = L.ET.tostring(e)
    s = prettyPrint(e)
    check(isinstance(s, str), 'pretty printed', 'str', type(s).__name__)
    try:
        got = stripped(tree_of(Std.fromstring(s)))
    except Std.ParseError as x:
        raise Mismatch('pretty printed form is not XML: %s' % x, None, s)
    check(got == stripped(want), 'pretty printed form', stripped(want), got)
    check(L.ET.tostring(e) == before, 'pretty printing changed the element',
          before, L.ET.tostring(e))
    check(prettyPrint(e) == s, 'pretty printed twice', s, prettyPrint(e))


# -- requests ---------------------------------------------------------------------
def one_request(ctx, r, origins):
    L = build.lib()
    want = tree_expected(build.request_node(r))
    read_want = r._replace(subjects=tuple(
        (ACCESS_SUBJECT if c is None else c, a) for c, a in r.subjects))
    from_text = tree_expected(build.request_node(read_want))
    for name in origins:
        if name == 'object':
            o, w, rr = build.o_request(r), want, r
        else:
            o, w, rr = c13.read(build.request_bytes(r, build.STYLES[name])), \
                from_text, read_want
        before = c13.observed(o)
        elem_before = None if name == 'object' else L.ET.tostring(o.elem)
        e, data = written(L.RequestElementTree, o)
        check(c13.observed(o) == before, 'writing changed the request', before,
              c13.observed(o))
        if elem_before is not None:
            check(L.ET.tostring(o.elem) == elem_before, 'writing changed the '
                  'document read', elem_before, L.ET.tostring(o.elem))
        # resource contents read from documents without or with other
        # namespaces keep their own tags
        got = tree_of(Std.fromstring(data))
        if isinstance(name, int) and not build.STYLES[name].ns:
            got = qualify(got)
        if isinstance(name, int) and build.STYLES[name].pretty:
            check(stripped(got) == stripped(w), 'document written (%s)' % name,
                  stripped(w), stripped(got))
        else:
            check(got == w, 'document written (%s)' % name, w, got)
        for src in (e, L.ET.fromstring(data)):
            o2 = L.RequestElementTree.fromXML(src)
            c13.compare(r, o2, 'read again (%s)' % name)
        if name == 'object' or build.STYLES[name].name in ('plain', 'prefixed'):
            pretty(e, w)
        ctx.step()
    ctx.state()


def qualify(t):
    return (t[0] if t[0].startswith('{') else NS + t[0], t[1], t[2],
            tuple(qualify(c) for c in t[3]))


def writable(r):
    return r._replace(action=r.action if r.action is not None else (),
                      environment=r.environment if r.environment is not None
                      else ())


def requests(ctx, job):
    seen = set()
    its = (writable(r) for r in c13.requests())
    for i, r in enumerate(shard(its, job)):
        k = repr(r) if not any(c for c, _ in r.resources) else i
        if k in seen:
            continue
        seen.add(k)
        ctx.sample(repr(r)[:300])
        sts = [0, 1 + i % 14] if not ctx.thorough else list(range(15))
        ctx.case('%d %s' % (i, repr(r)[:80]), one_request, ctx, r,
                 ['object'] + sts)


def texts(ctx, job):
    pool = [s for s in TEXTS if '\r' not in s]
    if ctx.thorough:
        pool += [a + b for a in TEXTS[:45] for b in TEXTS[:45]
                 if '\r' not in a + b]
    for s in shard(pool, job):
        for name, r in c13.slots(s):
            if not s.strip() and 'content' in name:
                continue
            ctx.case('%s %r' % (name, s), one_request, ctx, writable(r),
                     ['object', 0])
        ctx.case('response %r' % s, one_response, ctx, ((0, s), (1, s + 'x')))


# -- responses --------------------------------------------------------------------
def response_node(rs):
    n = Node('Response')
    for d, rid in rs:
        n.add(Node('Result', [] if rid is None else [('ResourceId', rid)],
                   Node('Decision', [], DECISIONS[d])))
    return n


def o_response(rs, how=0):
    L = build.lib()
    o = L.Response()
    for i, (d, rid) in enumerate(rs):
        if (i + how) % 2 and rid != '':
            r = L.Result.createInitialised(decision=DECISIONS[d],
                                           resourceId=rid or '')
        else:
            r = L.Result()
            r.decision = L.Decision(DECISIONS[d])
            if rid is not None:
                r.resourceId = rid
        o.results.append(r)
    return o


def a_response(o):
    L = build.lib()
    check(isinstance(o, L.Response), 'not a Response', 'Response',
          type(o).__name__)
    for r in o.results:
        check(isinstance(r, L.Result) and isinstance(r.decision, L.Decision),
              'result', 'Result with a Decision', repr(r))
    return tuple((DECISIONS.index(str(r.decision)), r.resourceId)
                 for r in o.results)


def one_response(ctx, rs):
    L = build.lib()
    R = L.ResponseElementTree
    node = response_node(rs)
    want = tree_expected(node)
    for how in (0, 1):
        o = o_response(rs, how)
        check(a_response(o) == rs, 'response made', rs, a_response(o))
        e, data = written(R, o)
        check(a_response(o) == rs, 'writing changed the response', rs,
              a_response(o))
        got = tree_of(Std.fromstring(data))
        check(got == want, 'document written', want, got)
        pretty(e, want)
        for src in (e, L.ET.fromstring(data)):
            again = a_response(R.fromXML(src))
            check(again == rs, 'read again', rs, again)
        ctx.step()
    for st in build.STYLES:
        if any(not representable(x or '', st) for _, x in rs):
            continue
        src = L.ET.fromstring(build.to_bytes(node, st, build.CONTEXT_NS))
        before = L.ET.tostring(src)
        o = R.fromXML(src)
        check(a_response(o) == rs, 'response read (%s)' % st.name, rs,
              a_response(o))
        check(L.ET.tostring(src) == before, 'reading changed the document',
              before, L.ET.tostring(src))
        got = tree_of(Std.fromstring(written(R, o)[1]))
        check(got == want, 'read and written (%s)' % st.name, want, got)
        ctx.step()
    ctx.state()
    ctx.outcome('%d results' % len(rs))


def responses(ctx, job):
    kinds = list(itertools.product(range(4), (None, 'r', '', 'a/b?c=d&e#f')))
    for k in range(4 if ctx.thorough else 3):
        for rs in itertools.product(kinds, repeat=k):
            ctx.sample(repr(rs))
            ctx.case(repr(rs), one_response, ctx, rs)
    for ds in itertools.product(range(4), repeat=4):
        rs = tuple((d, 'r%d' % (i // 2) if i % 3 else None)
                   for i, d in enumerate(ds))
        ctx.case(repr(rs), one_response, ctx, rs)
    ctx.case('many', one_response, ctx, tuple(
        (i % 4, 'r%d' % i) for i in range(60)))


def evaluated(ctx, job):
    """Responses of a decision point."""
    ALG = ALGS
    m = lambda v: target(action=((simple_match('action', v),),))
    for alg in ALG:
        for es in itertools.product('PD', repeat=2):
            p = Policy('p', alg, None, (
                Rule('r1', es[0], m('a'), None), Rule('r2', es[1], m('b'), None),
                Rule('r3', es[0], m('c'), Apply(F1 + 'not', (val('x'),)))))
            ctx.case('%s %s' % (alg, es), decisions, ctx, p)


def decisions(ctx, p):
    L = build.lib()
    pdp = build.x_pdp(p)
    for k in range(4):
        for vs in itertools.combinations('abc', k):
            req = request(action=(Attr(ID['action'], 'string', None, vs),)
                          if vs else ())
            resp = pdp.evaluate(build.o_request(req))
            d = build.decision_of(resp)
            check(d in spec.decide(p, req), 'decision', spec.decide(p, req), d)
            data = written(L.ResponseElementTree, resp)[1]
            want = tree_expected(response_node(((DECISIONS.index(
                DECISION[d]), None),)))
            got = tree_of(Std.fromstring(data))
            check(got == want, 'response written', want, got)
            again = L.ResponseElementTree.fromXML(L.ET.fromstring(data))
            check(build.decision_of(again) == d, 'read again', d,
                  build.decision_of(again))
            ctx.step()
            ctx.outcome(d)
    ctx.state()


# -- what is not a response ---------------------------------------------------------
def invalid(ctx, job):
    bad = ['permit', 'PERMIT', 'Permit ', ' Permit', 'Allow', '', 'True',
           'PermitDeny', 'Not Applicable', 'Denied', 'None', 'P', 'Error']
    for i, b in enumerate(bad):
        for k, d in itertools.product(range(3), range(4)):
            n = Node('Response', [], *[Node('Result', [], Node(
                'Decision', [], *([x] if x else [])))
                for x in [DECISIONS[d]] * k + [b]])
            ctx.case('decision %r %d %d' % (b, k, d), refused, ctx, n)
    # not exactly one decision in a result, anywhere among the results
    for k in range(3):
        for i in range(k + 1):
            for ds in [()] + list(itertools.product(range(4), repeat=2)) + [
                    (0, 1, 0), (3, 3, 3)]:
                n = response_node(tuple((j, None) for j in range(k)))
                n.children.insert(i, Node('Result', [('ResourceId', 'r')], *[
                    Node('Decision', [], DECISIONS[d]) for d in ds]))
                ctx.case('decisions %r at %d of %d' % (ds, i, k), refused, ctx, n)
    for t in ('Bogus', 'Decision', 'Request', 'Response', 'result'):
        ctx.case('root %s' % t, refused, ctx, Node(t, [], Node('Result')),
                 t != 'Response' and t or 'x')
        ctx.case('in Response %s' % t, refused, ctx,
                 response_node(((0, None),)).add(Node(t)))
    for t in ('Bogus', 'Result', 'Request', 'decision'):
        n = response_node(((0, None), (1, 'r')))
        n.children[1].add(Node(t))
        ctx.case('in Result %s' % t, refused, ctx, n)
    for name in ('None', 'str', 'int', 'list', 'request', 'result', 'policy'):
        ctx.case('write %s' % name, unwritable, ctx, name)


def refused(ctx, n, root=None):
    if root == 'x':
        return
    L = build.lib()
    for st in build.STYLES[:3]:
        e = L.ET.fromstring(build.to_bytes(n, st, build.CONTEXT_NS))
        try:
            o = L.ResponseElementTree.fromXML(e)
        except Exception:
            ctx.outcome('refused')
        else:
            raise Mismatch('an invalid response was read', 'exception',
                           a_response(o))
        ctx.step()
    ctx.state()


def unwritable(ctx, name):
    """Objects of another kind aren't written."""
    L = build.lib()
    objs = {'None': None, 'str': 'x', 'int': 1, 'list': [], 'request':
            build.o_request(writable(request())), 'result': L.Result(),
            'policy': L.Policy(), 'response': o_response(((0, None),))}
    for cls, good in ((L.ResponseElementTree, 'response'),
                      (L.RequestElementTree, 'request')):
        if name != good:
            try:
                e = cls.toXML(objs[name])
            except Exception:
                ctx.step()
            else:
                raise Mismatch('%s written as %s' % (name, good), 'exception',
                               L.ET.tostring(e))
    ctx.state()


# -- several objects ----------------------------------------------------------------
def mixed(ctx, job):
    """Every sequence of writing, reading and changing two requests and two
    responses that share content."""
    ops = ['w0', 'w1', 'wr', 'pp', 'read', 'change', 'share']
    for h in itertools.product(ops, repeat=4 if ctx.thorough else 3):
        ctx.case('-'.join(h), one_mixed, ctx, h)


def one_mixed(ctx, h):
    L = build.lib()
    from ndg.xacml.utils.etree import prettyPrint
    a = Attr('urn:a', 'string', 'i', ('v', 'w'))
    content = Node('ResourceContent', [('k', '1')], Node('x', [], 'c'))
    rs = [Request(((None, (a,)),), ((content, (a,)),), (a,), ()),
          Request(((None, ()),), ((None, ()),), (), (a,))]
    os = [build.o_request(r) for r in rs]
    resp = [(0, 'r')]
    ro = o_response(tuple(resp))

    def verify(i):
        data = written(L.RequestElementTree, os[i])[1]
        want = tree_expected(build.request_node(rs[i]))
        got = tree_of(Std.fromstring(data))
        check(got == want, 'request %d' % i, want, got)
        c13.compare(rs[i], L.RequestElementTree.fromXML(L.ET.fromstring(data)),
                    'request %d read' % i)
        ctx.step()

    def verify_response():
        got = tree_of(Std.fromstring(written(L.ResponseElementTree, ro)[1]))
        want = tree_expected(response_node(tuple(resp)))
        check(got == want, 'response', want, got)
        ctx.step()
    for op in h + ('w0', 'w1', 'wr'):
        if op in ('w0', 'w1'):
            verify(int(op[1]))
        elif op == 'wr':
            verify_response()
        elif op == 'pp':
            for e in (L.RequestElementTree.toXML(os[0]),
                      L.ResponseElementTree.toXML(ro)):
                prettyPrint(e)
        elif op == 'read':
            os[0] = L.RequestElementTree.fromXML(L.RequestElementTree.toXML(
                os[0]))
            rs[0] = rs[0]._replace(subjects=tuple(
                (ACCESS_SUBJECT if c is None else c, x)
                for c, x in rs[0].subjects))
        elif op == 'change':
            b = Attr('urn:b', 'string', None, ('n',))
            os[1].action.attributes.append(build.o_attr(b))
            rs[1] = rs[1]._replace(action=rs[1].action + (b,))
            r = L.Result()
            r.decision = L.Decision('Deny')
            ro.results.insert(0, r)
            resp.insert(0, (1, None))
        elif op == 'share':
            os[1].resources[0].resourceContent = os[0].resources[0].resourceContent
            rs[1] = rs[1]._replace(resources=((content, rs[1].resources[0][1]),))
    ctx.state()


# -- any document ------------------------------------------------------------------
DECLS = ('', ' xmlns="u:1"', ' xmlns=""', ' xmlns:p="u:1"', ' xmlns:p="u:2"',
         ' xmlns:q="u:1"', ' xmlns:p="u:1" xmlns:q="u:1"',
         ' xmlns="u:1" xmlns:p="u:1"', ' xmlns="u:2" xmlns:q="u:2"')
NAMES = ('a', 'p:a', 'q:b')
ATTRS = ('', ' k="1"', ' p:k="1"', ' q:k="1"', ' xml:lang="en"',
         ' k="&lt;&quot;" p:k="2"')
ITEMS = ('t', '<e/>', '<!--c-->', '<?pi x?>', '<p:e>u<e/>v</p:e>')


def element(name, decl, attr, body=''):
    return '<%s%s%s>%s</%s>' % (name, decl, attr, body, name)


def documents_of(thorough):
    one = list(itertools.product(NAMES, DECLS, ATTRS))
    bare = [x for x in one if not x[2]]
    for a in one:
        yield element(*a)
        for b in one:
            yield element(*a + (element(*b),))
    for a, b, c in itertools.product(bare, repeat=3):
        yield element(*a + (element(*b + (element(*c),)),))
        yield element(*a + (element(*b) + element(*c),))
    for n in range(0, 6 if thorough else 5):
        for items in itertools.product(ITEMS, repeat=n):
            yield element('p:a', ' xmlns:p="u:1"', '', ''.join(items))
            if n < 4:
                yield element('a', ' xmlns="u:2" xmlns:p="u:1"', '', element(
                    'a', '', '', ''.join(items)) + 't')


def whole(e):
    """(tag, attributes, text and children in order) of an element."""
    out = [e.text or '']
    for c in e:
        out += [whole(c), c.tail or '']
    return (e.tag, tuple(sorted(e.attrib.items())), tuple(out))


def squeezed(t):
    return (t[0], t[1], tuple(''.join(x.split()) if isinstance(x, str)
                              else squeezed(x) for x in t[2]))


def documents(ctx, job):
    seen = set()
    for d in shard(documents_of(ctx.thorough), job):
        if d in seen:
            continue
        seen.add(d)
        try:
            want = whole(Std.fromstring(d))
        except Std.ParseError:
            continue
        ctx.case(d, document, ctx, d, want)


def document(ctx, d, want):
    from ndg.xacml.utils.etree import prettyPrint
    L = build.lib()
    e = L.ET.fromstring(d)
    before = L.ET.tostring(e)
    s = prettyPrint(e)
    try:
        got = whole(Std.fromstring(s))
    except Std.ParseError as x:
        raise Mismatch('pretty printed form is not XML: %s' % x, want, s)
    check(squeezed(got) == squeezed(want), 'pretty printed form',
          squeezed(want), squeezed(got))
    check(L.ET.tostring(e) == before, 'pretty printing changed the element',
          before, L.ET.tostring(e))
    ctx.step()
    # the same as content of a resource
    r = ('<r:Request xmlns:r="%s"><r:Subject/><r:Resource><r:ResourceContent>%s'
         '</r:ResourceContent></r:Resource><r:Action/><r:Environment/></r:Request>'
         % (build.CONTEXT_NS, d))
    o = L.RequestElementTree.fromXML(L.ET.fromstring(r))
    # lxml's own copies of elements that rebind prefixes may lose namespaces
    n = L.ET.Element('{u:w}w')
    n.append(copy.deepcopy(o.resources[0].resourceContent))
    if whole(Std.fromstring(L.ET.tostring(n)))[2][1][2] != ('', want, ''):
        ctx.outcome('not copied by the XML library')
        return
    e, data = written(L.RequestElementTree, o)
    for doc, norm in ((data, lambda t: t), (prettyPrint(e), squeezed)):
        top = Std.fromstring(doc)
        c = top.findall('.//%sResourceContent' % NS)
        check(len(c) == 1 and len(c[0]) == 1, 'content elements', 1, doc)
        got = norm(whole(c[0][0]))
        check(got == norm(want), 'content written', norm(want), got)
        ctx.step()
    ctx.state()


# -- sizes -----------------------------------------------------------------------------
def long(ctx, job):
    for i, (n, r) in enumerate(shard(c13.large(ctx.thorough), job)):
        ctx.case('%d of %d' % (i, n), one_request, ctx, writable(r),
                 ['object', 0])
    for n, name, r in shard(c13.long_texts(ctx.thorough), job):
        ctx.case('%s of %d' % (name, n), one_request, ctx, writable(r),
                 ['object', 0])
    for n in (130, 300, 1100) + (2100, 4200) * ctx.thorough:
        ctx.case('results %d' % n, one_response, ctx, tuple(
            (i % 4, 'r%d' % i if i % 5 else None) for i in range(n)))
        x = c13.long_text(30 * n)
        ctx.case('text %d' % n, one_response, ctx, ((0, x), (1, x + 'x')))


def run(ctx):
    globals()[base(ctx.job)](ctx, ctx.job)
