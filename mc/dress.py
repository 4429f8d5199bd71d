"""Dressing policies and requests in features that decide nothing (ids, issuers,
further subjects, ...).  The reference model judges the dressed ones."""
import itertools

from mc import build, spec
from mc.spec import Attr, Policy, PolicySet, Request

OTHER = 'urn:oasis:names:tc:xacml:1.0:subject-category:codebase'
PADS = (Attr('urn:mc:pad', 'string', None, ('v', 'x', 'read')),
        Attr('urn:mc:pad', 'anyURI', 'urn:mc:issuer', ('v',)))


def each(r, f):
    """The request with every list of attributes changed."""
    g = lambda a: None if a is None else tuple(f(a))
    return Request(tuple((c, g(a)) for c, a in r.subjects),
                   tuple((c, g(a)) for c, a in r.resources), g(r.action),
                   g(r.environment))


def content():
    return build.Node('ResourceContent', [('k', 'v')], build.Node('x', [], 'v'))


CONTENT = content()
REQUESTS = (
    lambda r: each(r, lambda a: PADS + a),
    lambda r: r._replace(subjects=r.subjects + ((OTHER, ()), (OTHER, PADS[:1]))),
    lambda r: each(r, lambda a: [x._replace(issuer=x.issuer or 'urn:mc:who')
                                 for x in a]),
    lambda r: r._replace(subjects=((OTHER, PADS[1:]),) + r.subjects,
                         resources=r.resources + ((CONTENT, PADS),)),
    lambda r: each(r, lambda a: [x._replace(values=(v,)) for x in a
                                 for v in x.values]),
    lambda r: each(r, lambda a: a[::-1] + PADS * 5),
    lambda r: r._replace(resources=((CONTENT, ()), (None, ())) + r.resources),
    lambda r: r._replace(subjects=tuple((OTHER, a) for _, a in r.subjects)),
    lambda r: each(r, lambda a: [x._replace(issuer='') for x in a]),
)


def rules(p, f):
    if isinstance(p, Policy):
        return p._replace(rules=tuple(f(i, r) for i, r in enumerate(p.rules)))
    if isinstance(p, PolicySet):
        return p._replace(children=tuple(rules(c, f) for c in p.children))
    return p


def ids(p, f, n=None):
    n = itertools.count() if n is None else n
    if isinstance(p, PolicySet):
        return p._replace(id=f(next(n)), children=tuple(
            ids(c, f, n) for c in p.children))
    if isinstance(p, Policy):
        return p._replace(id=f(next(n)))
    return p


POLICIES = (
    lambda p: rules(p, lambda i, r: r._replace(id=None)),
    lambda p: rules(p, lambda i, r: r._replace(id='same')),
    lambda p: ids(rules(p, lambda i, r: r._replace(id='')), lambda i: ''),
    lambda p: ids(rules(p, lambda i, r: r._replace(
        id=None if i % 2 else 'r')), lambda i: None),
    lambda p: ids(rules(p, lambda i, r: r._replace(id='p%d' % i)),
                  lambda i: 'same'),
    lambda p: p,
)


def references(p):
    return isinstance(p, (spec.PolicyRef, spec.PolicySetRef)) or isinstance(
        p, PolicySet) and any(references(c) for c in p.children)


def describe(po, k):
    """Descriptions and versions that decide nothing."""
    L = build.lib()
    todo = [po]
    while todo:
        o = todo.pop()
        if isinstance(o, L.PolicySet):
            todo.extend(o.policies)
        elif isinstance(o, L.Policy):
            todo.extend(o.rules)
        if k % 3:
            o.description = ('', 'Permit', 'Deny everything')[k % 3]
        if k % 4 == 1 and not isinstance(o, L.Rule):
            o.version = '0.%d' % k
    return po
