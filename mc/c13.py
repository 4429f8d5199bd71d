"""Reading a request document yields exactly the request it describes, or
fails."""
import itertools

from mc import build, spec
from mc.build import Node
from mc.c08 import TEXTS, long_text, representable
from mc.c09 import kids, need, Reject, Unspec, text
from mc.core import Mismatch, check
from mc.pdpcheck import base, shard
from mc.spec import *

STRINGY = ('string', 'anyURI', 'x500Name', 'rfc822Name', 'ipAddress', 'dnsName')
OTHER = 'urn:oasis:names:tc:xacml:1.0:subject-category:codebase'
I = 'urn:mc:id'


# -- comparing ------------------------------------------------------------------
def local(tag):
    return tag.rsplit('}', 1)[-1]


def content_of(e):
    """(local name, attributes, children and texts) of an element, comments and
    processing instructions left out, white space around elements too."""
    if e is None:
        return None
    out, buf = [], e.text or ''
    for c in e:
        if isinstance(c.tag, str):
            out += [buf, content_of(c)]
            buf = ''
        buf += c.tail or ''
    out.append(buf)
    if len(out) > 1:
        out = [x for x in out if not isinstance(x, str) or x.strip()]
    return (local(e.tag), tuple(sorted(e.attrib.items())),
            tuple(x for x in out if x != ''))


def content_node(n):
    """The same of a Node."""
    if n is None:
        return None
    return (n.tag.rsplit(':', 1)[-1], tuple(sorted(
        a for a in n.attrs if not a[0].startswith('xmlns:'))), tuple(
            content_node(c) if isinstance(c, Node) else c for c in n.children))


def observed(o):
    L = build.lib()
    a = build.a_request(o)
    for s, x in zip(o.subjects, a.subjects):
        check(isinstance(s, L.section['subject'][3]), 'a subject is a',
              'Subject', type(s).__name__)
    for cat, parts in (('subject', o.subjects), ('resource', o.resources),
                       ('action', [o.action]), ('environment', [o.environment])):
        for part in parts:
            if part is None:
                continue
            check(isinstance(part, L.section[cat][3]), cat + ' is a', cat,
                  type(part).__name__)
            for at in part.attributes:
                check(isinstance(at, L.Attribute), 'attribute is a',
                      'Attribute', type(at).__name__)
                want = L.valueClass(at.dataType)
                for v in at.attributeValues:
                    check(type(v) is want, 'class of a value',
                          want.__name__, type(v).__name__)
                    check(v.dataType == at.dataType, 'data type of a value',
                          at.dataType, v.dataType)
    return a._replace(resources=tuple(
        (content_of(r.resourceContent), x[1])
        for r, x in zip(o.resources, a.resources)))


def expected(r):
    return r._replace(
        subjects=tuple((ACCESS_SUBJECT if c is None else c, a)
                       for c, a in r.subjects),
        resources=tuple((content_node(c), a) for c, a in r.resources))


def read(data):
    L = build.lib()
    elem = L.ET.fromstring(data)
    before = L.ET.tostring(elem)
    r = L.RequestElementTree.fromXML(elem)
    check(isinstance(r, L.Request), 'not a Request', 'Request', type(r).__name__)
    check(r.elem is elem, 'element of the request')
    check(L.ET.tostring(elem) == before, 'the document was changed', before,
          L.ET.tostring(elem))
    return r


def compare(r, o, what):
    want, got = expected(r), observed(o)
    if want != got:
        for f in want._fields:
            if getattr(want, f) != getattr(got, f):
                raise Mismatch('%s: %s differ' % (what, f),
                               repr(getattr(want, f)), repr(getattr(got, f)))


# -- structure ------------------------------------------------------------------
def attrlists(n):
    """Lists of <=n attributes over a universe."""
    u = [attr_('a', 'string', None, 'x'), attr_('a', 'string', None, 'y'),
         attr_('a', 'anyURI', None, 'x'), attr_('a', 'string', 'i', 'x'),
         attr_('a', 'string', '', 'x'), attr_('b', 'string', None, 'x', 'y'),
         attr_('b', 'string', 'i', 'y', 'x', 'y'), attr_('b', 'string', None, '')]
    for k in range(n + 1):
        for l in itertools.product(u, repeat=k):
            yield l


def attr_(id, t, issuer, *values):
    return Attr(I + id, t, issuer, tuple(values))


def contents():
    T = lambda t, *c: Node(t, [], *c)
    yield None
    yield T('ResourceContent')
    yield T('ResourceContent', 'text')
    yield Node('ResourceContent', [('a', '1'), ('b', '')], T('x'))
    yield T('ResourceContent', T('x', 'one'), T('x', 'two'), T('y', T('x', '3')))
    yield T('ResourceContent', T('Attribute'), T('Subject', T('Attribute')),
            T('ResourceContent', 'inner'), T('Request'))


def requests():
    few = list(attrlists(1))
    cats = (None, ACCESS_SUBJECT, OTHER, '')
    # one section, every list of <=2 attributes; the others minimal or absent
    for l in attrlists(3):
        if len(l) < 3:
            yield Request(((OTHER, l),), ((None, ()),), l[:1], l[1:])
        yield Request(((None, l),), (), None, None)
        yield Request((), ((None, l),), (), None)
        yield Request((), (), l, None)
        yield Request((), (), None, l)
    # lists of sections
    for k in range(4):
        for cs in itertools.product(cats, repeat=k):
            yield Request(tuple((c, few[(i + k) % len(few)])
                                for i, c in enumerate(cs)), (), None, ())
    for k in range(3):
        for cs in itertools.product(list(contents()), repeat=k):
            for lists in itertools.product(few[:4], repeat=k):
                yield Request((), tuple(zip(cs, lists)), (), None)
    for s, r, a, e in itertools.product(range(3), range(3), (None, 0, 1, 2),
                                        (None, 0, 1, 2)):
        def at(p, n):
            return tuple(attr_('%s%d' % (p, i), 'string', None, p, str(i))
                         for i in range(n))
        yield Request(tuple((None, at('s%d' % i, i + 1)) for i in range(s)),
                      tuple((None, at('r%d' % i, i)) for i in range(r)),
                      None if a is None else at('a', a),
                      None if e is None else at('e', e))
    for n in (4, 9, 40):
        many = tuple(attr_('m%d' % (i // 2), STRINGY[i % 6], 'i' if i % 3 else None,
                           *['v%d' % j for j in range(1 + i % 4)])
                     for i in range(n))
        yield Request(tuple((OTHER if i % 2 else None, many[i:])
                            for i in range(n)),
                      tuple((None, many[:i]) for i in range(n)), many, many[::-1])
        yield Request(((None, (attr_('a', 'string', None,
                                     *['v%d' % (j // 2) for j in range(n)]),)),),
                      (), None, None)


def structure(ctx, job):
    for i, r in enumerate(shard(requests(), job)):
        sts = build.STYLES if ctx.thorough or i % 6 == 0 else \
            build.STYLES[i % 5::5] + [build.PLAIN]
        ctx.sample(repr(r)[:300])
        ctx.case('%d %s' % (i, repr(r)[:80]), one, ctx, r, sts)


def one(ctx, r, sts):
    for st in sts:
        compare(r, read(build.request_bytes(r, st)), st.name)
        ctx.step()
    ctx.state()
    ctx.outcome('%d subjects %d resources' % (len(r.subjects), len(r.resources)))


# -- texts ------------------------------------------------------------------------
def slots(s):
    for k, cat in enumerate(SECTIONS):
        def req(*a):
            parts = [((None, a),), ((None, a),), a, a]
            return Request(*[p if i == k else (() if i < 2 else None)
                             for i, p in enumerate(parts)])
        yield cat + ' value', req(attr_('a', 'string', None, s, s + 'x', 'x' + s))
        yield cat + ' id', req(Attr(s, 'string', None, ('v',)))
        yield cat + ' issuer', req(attr_('a', 'string', s, 'v'))
        yield cat + ' uri', req(*[attr_('a', t, None, s) for t in STRINGY])
    yield 'category', Request(((s, ()),), (), None, None)
    yield 'content', Request((), ((Node('ResourceContent', [('k', s)], Node(
        'x', [], s)), ()),), None, None)


def texts(ctx, job):
    pool = list(TEXTS)
    if ctx.thorough:
        pool += [a + b for a in TEXTS[:45] for b in TEXTS[:45]]
    for s in shard(pool, job):
        for name, r in slots(s):
            ctx.sample('%s %r' % (name, s))
            ctx.case('%s %r' % (name, s), one, ctx, r,
                     [st for st in build.STYLES if representable(s, st)])


# -- data types ---------------------------------------------------------------------
NATIVE = {'integer': ('12', 12), 'boolean': ('true', True), 'double': ('1.5', 1.5),
          'hexBinary': ('0f', 15)}


def types(ctx, job):
    for t in sorted(TYPE):
        for k in range(4):
            for txts in (('a',), ('', 'b'), ('12',), ('true', 'false'), ('',),
                         ('1.5',), ('None',), ('0f',), ('2020-01-01',)):
                ctx.case('%s in %d %r' % (t, k, txts), typed, ctx, k, t, txts)
    for t in ('', 'string', XS, XS + 'String', XS + 'string ', ' ' + XS + 'string',
              XS + 'int', XS + 'anySimpleType', 'urn:none', 'None', 'String',
              'http://www.w3.org/2001/XMLSchema', TYPE['x500Name'].upper()):
        for k in range(4):
            ctx.case('unknown %r in %d' % (t, k), typed, ctx, k, t, ('a',))


def typed(ctx, k, t, txts):
    a = (attr_('a', 'string', None, 'x'), attr_('a', t, None, *txts))
    parts = [((None, a),), ((None, a),), a, a]
    r = Request(*[p if i == k else (() if i < 2 else None)
                  for i, p in enumerate(parts)])
    data = build.request_bytes(r)
    if t in STRINGY:
        compare(r, read(data), t)
    else:
        try:
            o = build.lib().RequestElementTree.fromXML(
                build.lib().ET.fromstring(data))
        except Exception:
            ctx.outcome('refused')
        else:
            check(t in NATIVE or t in TYPE, 'unknown data type accepted',
                  'rejection', t)
            at = ([o.subjects, o.resources, [o.action], [o.environment]][k][0]
                  .attributes[1])
            for txt, v in zip(txts, at.attributeValues):
                check(not isinstance(v.value, str), 'text as value of type ' + t,
                      'native value or rejection', v.value)
                if t in NATIVE and txt == NATIVE[t][0]:
                    check(v.value == NATIVE[t][1], t, NATIVE[t], v.value)
            ctx.outcome('native')
    ctx.state()
    ctx.step()


# -- mutations -----------------------------------------------------------------------
class Reader(object):
    """The reference grammar: Node tree -> abstract request."""

    def __init__(self):
        self.rej, self.unspec = [], []

    def read(self, n):
        r = None
        try:
            r = self.request(n)
        except Reject as e:
            self.rej.append(str(e))
        except Unspec as e:
            self.unspec.append(str(e))
        if self.rej:
            return ('reject', self.rej[0])
        if self.unspec:
            return ('unspec', self.unspec[0])
        return ('ok', r)

    def request(self, n):
        if n.tag != 'Request':
            raise Reject('root')
        subjects, resources, one = [], [], {}
        for c in kids(n):
            if c.tag == 'Subject':
                subjects.append((dict(c.attrs).get('SubjectCategory'),
                                 self.attrs(c)))
            elif c.tag == 'Resource':
                content = [x for x in kids(c) if x.tag == 'ResourceContent']
                if len(content) > 1:
                    raise Reject('contents')
                resources.append((content[-1] if content else None,
                                  self.attrs(c, 'ResourceContent')))
            elif c.tag in ('Action', 'Environment'):
                if c.tag in one:
                    raise Reject('repeated ' + c.tag)
                one[c.tag] = self.attrs(c)
            else:
                raise Reject('%s in Request' % c.tag)
        return Request(tuple(subjects), tuple(resources), one.get('Action'),
                       one.get('Environment'))

    def attrs(self, n, other=None):
        out = []
        for c in kids(n):
            if c.tag == 'Attribute':
                try:
                    out.append(self.attr(c))
                except Reject as e:
                    self.rej.append(str(e))
                except Unspec as e:
                    self.unspec.append(str(e))
            elif c.tag != other:
                self.rej.append('%s in section' % c.tag)
        return tuple(out)

    def attr(self, n):
        i, t = need(n, 'AttributeId'), need(n, 'DataType')
        if t not in build.UNTYPE:
            raise Reject('data type')
        t = build.UNTYPE[t]
        if not kids(n):
            raise Reject('no values')
        values = []
        for c in kids(n):
            if c.tag != 'AttributeValue':
                raise Reject('%s in Attribute' % c.tag)
            values.append(c)
        if t not in STRINGY:
            raise Unspec('native type')
        return Attr(i, t, dict(n.attrs).get('Issuer'),
                    tuple(text(c) for c in values))


TAGS = ['Request', 'Subject', 'Resource', 'Action', 'Environment', 'Attribute',
        'AttributeValue', 'ResourceContent', 'Bogus', 'Response', 'Result',
        'Target', 'Policy', 'Attributes', 'attribute', 'subject', 'Subjects',
        'Status', 'Obligations']
ATTRS = ['AttributeId', 'DataType', 'Issuer', 'SubjectCategory', 'Bogus']
VALUES = {'DataType': sorted(TYPE.values()) + [
    '', 'string', XS, XS + 'String', XS + 'string ', 'urn:none', XS + 'int'],
    'AttributeId': ['', 'urn:new', 'urn:mc:ida', ' '],
    'Issuer': ['', 'j', 'None'], 'SubjectCategory': ['', OTHER, 'x']}


def docs():
    a, b = attr_('a', 'string', 'i', 'x', 'y'), attr_('b', 'anyURI', None, 'z')
    yield 'full', Request(((None, (a, b)), (OTHER, (b,))), (
        (Node('ResourceContent', [('k', 'v')], Node('x', [], 'one'), Node('y')),
         (b, a)),), (a,), (b, b))
    yield 'small', Request(((None, (a,)),), ((None, (b,)),), (b,), ())
    yield 'empty', Request((), (), None, None)


def sample_content(tag):
    if tag[0] == '!':
        yield Node(tag, [('xmlns:fo', 'urn:mc:foreign')])
        return
    yield Node(tag)
    v = Node('AttributeValue', [], 'new')
    at = Node('Attribute', [('AttributeId', 'n'), ('DataType', XS + 'string')], v)
    full = {'AttributeValue': v, 'Attribute': at, 'ResourceContent': Node(
        'ResourceContent', [], Node('x')), 'Request': Node('Request', [], Node(
            'Subject', [], at))}
    for t in ('Subject', 'Resource', 'Action', 'Environment'):
        full[t] = Node(t, [], at.copy())
    if tag in full:
        yield full[tag]


def mutations(doc):
    from mc import c09
    saved = c09.TAGS, c09.ATTRS, c09.VALUES, c09.sample_content
    c09.TAGS, c09.ATTRS, c09.VALUES, c09.sample_content = (
        TAGS, ATTRS, VALUES, sample_content)
    try:
        return list(c09.mutations(doc))
    finally:
        c09.TAGS, c09.ATTRS, c09.VALUES, c09.sample_content = saved


def todo(thorough):
    for name, r in docs():
        doc = build.request_node(r)
        ms = mutations(doc)
        for mname, path, fn in ms:
            yield '%s %s' % (name, mname), doc, [(path, fn)]
        if name == 'small':
            # pairs; the later place in the document is changed first
            ms = [m for m in ms if not m[0].startswith('move')]
            if not thorough:
                ms = ms[::3]
            for (a, pa, fa), (b, pb, fb) in itertools.combinations(ms, 2):
                yield '%s & %s' % (a, b), doc, [(pa, fa), (pb, fb)]


def mutate(ctx, job):
    for k, (name, doc, muts) in enumerate(shard(todo(ctx.thorough), job)):
        ctx.sample(name)
        ctx.case(name, mutated, ctx, doc, muts, build.STYLES[(0, 1, 4, 9)[k % 4]])


def mutated(ctx, doc, muts, style):
    d = doc.copy()
    where = [d.at(p) for p, _ in muts]
    try:
        for x, (_, fn) in reversed(list(zip(where, muts))):
            fn(x)
    except (IndexError, AttributeError):
        return
    d = d.copy()
    if any(len(dict(x.attrs)) < len(x.attrs) for _, x in d.walk()):
        return                  # not XML
    verdict, want = Reader().read(d)
    data = build.to_bytes(d, style, build.CONTEXT_NS)
    L = build.lib()
    elem = L.ET.fromstring(data)
    try:
        o = L.RequestElementTree.fromXML(elem)
    except Exception as e:
        if verdict == 'ok':
            raise Mismatch('a valid request was refused (%s: %s)' % (
                type(e).__name__, str(e)[:200]), repr(want)[:300], data[:2000])
        ctx.outcome(verdict + '/refused')
    else:
        if verdict == 'reject':
            raise Mismatch('an invalid request was read', want, data[:3000])
        if verdict == 'ok':
            compare(want, o, style.name)
        ctx.outcome(verdict + '/read')
    ctx.step()
    ctx.state()


# -- sequences and decisions --------------------------------------------------------
def pairs(ctx, job):
    """Requests read one after the other have nothing in common; each decides
    as the same request put together by hand."""
    rs = [r for _, r in docs()] + [
        Request(((None, l),), ((None, l),), l, l) for l in attrlists(1)]
    for i, j in itertools.product(range(len(rs)), repeat=2):
        ctx.case('%d then %d' % (i, j), pair, ctx, rs[i], rs[j], i, j)


def probes():
    n = 0
    for cat in SECTIONS:
        for id, t, issuer in (('a', 'string', None), ('a', 'string', 'i'),
                              ('a', 'anyURI', None), ('b', 'string', None)):
            for v in ('x', ''):
                n += 1
                yield Policy('p%d' % n, ALGS[0], target(**{cat: ((Match(
                    F1 + t + '-equal', Val(t, v), Des(cat, I + id, t, issuer,
                                                      True)),),)}),
                    (Rule('r', 'P', None, None),))


PDPS = []


def pair(ctx, r, q, i, j):
    L = build.lib()
    if not PDPS:
        PDPS.extend((p, build.o_pdp(p)) for p in probes())
    a = read(build.request_bytes(r, build.STYLES[i % 5]))
    b = read(build.request_bytes(q, build.STYLES[j % 5]))
    compare(r, a, 'first')
    compare(q, b, 'second')
    if i <= j:
        for p, pdp in PDPS:
            for req, o in ((r, a), (q, b)):
                got = build.decision_of(pdp.evaluate(o))
                by_hand = build.decision_of(pdp.evaluate(build.o_request(req)))
                want = spec.decide(p, spec.Env(req))
                check(got in want, 'decision on the request read', want, got)
                check(got == by_hand, 'decision on the same request by hand',
                      by_hand, got)
                ctx.step()
    for part in list(b.subjects) + list(b.resources) + [
            x for x in (b.action, b.environment) if x is not None]:
        for at in part.attributes:
            del at.attributeValues[:]
        del part.attributes[:]
    del b.subjects[:]
    compare(r, a, 'first after the second was emptied')
    compare(r, read(build.request_bytes(r)), 'read again')
    compare(q, read(build.request_bytes(q)), 'read again')
    ctx.step()
    ctx.state()


# -- sizes -----------------------------------------------------------------------
def large(thorough):
    """Requests with many of everything that can be repeated."""
    for n in (130, 300, 1100) + (2100, 4200) * thorough:
        l = tuple(attr_('m%d' % (i // 2), STRINGY[i % 6], 'i' if i % 3 else None,
                        'v%d' % i) for i in range(n))
        vs = (attr_('a', 'string', None, *['v%d' % (i // 2) for i in range(n)]),
              attr_('a', 'string', 'i', 'x'))
        for x in (l, vs):
            yield n, Request(((None, x),), (), None, None)
            yield n, Request((), ((None, x),), (), None)
            yield n, Request((), (), x, None)
            yield n, Request((), (), None, x)
        yield n, Request(tuple((OTHER if i % 2 else None, (a,))
                               for i, a in enumerate(l)), (), None, ())
        yield n, Request((), tuple((None, (a,)) for a in l), None, ())
        yield n, Request((), ((Node('ResourceContent', [], *[
            Node('x', [('k', str(i))], 't%d' % i) for i in range(n)]), ()),),
            None, None)


def long_texts(thorough):
    for n in (1000, 1025, 4097, 8193, 32769, 65537) + (262145,) * thorough:
        for name, r in slots(long_text(n)):
            yield n, name, r


def long(ctx, job):
    for i, (n, r) in enumerate(shard(large(ctx.thorough), job)):
        ctx.case('%d of %d' % (i, n), one, ctx, r,
                 [build.PLAIN, build.STYLES[1 + i % 14]])
    for n, name, r in shard(long_texts(ctx.thorough), job):
        ctx.case('%s of %d' % (name, n), one, ctx, r,
                 [build.PLAIN, build.STYLES[1 + n % 14]])


def run(ctx):
    globals()[base(ctx.job)](ctx, ctx.job)
