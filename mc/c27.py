"""Every reader and every writer takes exactly the element or object it is for,
and gives what this is within the whole."""
import io
import itertools
import os

from mc import build, spec
from mc.build import Node
from mc.c08 import exprs, leaves, shapes, corpus
from mc.c13 import requests
from mc.c25 import attribute, section, request as seen
from mc.core import check, raises
from mc.pdpcheck import base, shard
from mc.spec import *

STY = [build.STYLES[i] for i in (0, 1, 2, 3, 4, 5, 9, 12)]


# -- parts of policies ------------------------------------------------------------
def readers():
    """name of the element -> (the type read, its reader)"""
    L = build.lib()
    from ndg.xacml.core import attributedesignator, match
    from ndg.xacml.core.policydefaults import PolicyDefaults
    types = [L.Policy, L.PolicySet, L.Rule, L.Target, L.Condition, L.Apply,
             L.AttributeValue, L.AttributeSelector]
    for c in SECTIONS:
        types += list(L.section[c][:3])
    out = dict((t.ELEMENT_LOCAL_NAME, (t, L.ReaderFactory.getReader(t)))
               for t in types)
    check(len(out) == 20, 'names of the elements of policies', 20, sorted(out))
    r = L.ReaderFactory.getReader(PolicyDefaults)
    out['PolicyDefaults'] = out['PolicySetDefaults'] = (PolicyDefaults, r)
    return out


def common():
    from ndg.xacml.parsers.common import Common
    L = build.lib()
    f = L.UrlPolicyFinder('/nowhere')
    f.setReader(L.ReaderFactory.getReader(L.PolicyBase))
    return Common(f)


def matches(entry):
    L = build.lib()
    return tuple(spec.Match(
        m.matchId, build.a_expr(m.attributeValue),
        build.a_expr(m.attributeDesignator) if m.attributeDesignator is not None
        else build.a_expr(m.attributeSelector) if m.attributeSelector is not None
        else None) for m in entry)


def a_rule(r):
    return spec.Rule(r.id, build.CODE.get(str(r.effect), str(r.effect)),
                     build.a_target(r.target), None if r.condition is None else
                     build.a_expr(r.condition.expression))


def abstract(name, o):
    if name in ('Policy', 'PolicySet'):
        return build.a_policy(o)
    if name == 'Rule':
        return a_rule(o)
    if name == 'Target':
        return build.a_target(o)
    if name == 'Condition':
        return build.a_expr(o.expression)
    if name.endswith('Defaults'):
        return o.xpathVersion
    if name.endswith('Match'):
        return matches([o])
    if name in build.CAP.values():
        return matches(o.matches)
    return build.a_expr(o)


def rules():
    t = list(itertools.islice(shapes(), 30, None, 17))[:6] + [None]
    e = list(itertools.islice(exprs(), 0, None, 40))[:8] + [None]
    e = [x for x in e if x is None or isinstance(x, Apply)]
    n = 0
    for tt, cc in itertools.product(t, e):
        n += 1
        yield spec.Rule('r%d' % n, 'PD'[n % 2], tt, cc)


def parts():
    """(name of the element, the element, what it is)"""
    for e in leaves():
        n = build.expr_node(e)
        yield n.tag, n, e
    for i, e in enumerate(exprs()):
        if isinstance(e, Apply):
            n = build.expr_node(e)
            yield 'Apply', n, e
            if i % 3 == 0:
                yield 'Condition', Node('Condition', [], n), e
    for i, t in enumerate(shapes()):
        tn = build.target_node(t)
        if i % 3 == 0:
            yield 'Target', tn, t
        for sec, entries in zip(
                [s for s in SECTIONS if t[SECTIONS.index(s)]],
                [x for x in t if x]):
            sn = [c for c in tn.children if c.tag == build.CAP[sec] + 's'][0]
            for en, entry in zip(sn.children, entries):
                if len(entry) != 1 or i % 4 == 0:
                    yield build.CAP[sec], en, entry
                for mn, m in zip(en.children, entry):
                    if i % 4 == 1:
                        yield build.CAP[sec] + 'Match', mn, (m,)
    for r in rules():
        n = build.policy_node(spec.Policy('p', ALGS[0], None, (r,)))
        yield 'Rule', n.children[-1], r
        yield 'Policy', n, spec.Policy('p', ALGS[0], None, (r,))
    for p in corpus():
        n = build.policy_node(p)
        yield n.tag, n, p
    for name in ('PolicyDefaults', 'PolicySetDefaults'):
        for v in ('http://www.w3.org/TR/1999/Rec-xpath-19991116',):
            yield name, Node(name, [], Node('XPathVersion', [], v)), v


def by_kind():
    """name -> some parts, the largest and the smallest"""
    out = {}
    for name, node, what in parts():
        out.setdefault(name, []).append((node, what))
    for name in out:
        out[name].sort(key=lambda x: len(repr(x[1])))
        l = out[name]
        out[name] = [l[0], l[len(l) // 2], l[-1]]
    return out


def parents(name, node):
    """documents with the part in its place, the path to it"""
    if name in ('Policy', 'PolicySet'):
        n = build.policy_node(spec.PolicySet('outer', ALGS[0], None, ()))
        return n.add(node), [0]
    doc = build.policy_node(spec.Policy('outer', ALGS[0], None, ()))
    if name == 'PolicyDefaults':
        doc.children.insert(0, node)
        return doc, [0]
    if name == 'PolicySetDefaults':
        doc = build.policy_node(spec.PolicySet('outer', ALGS[0], None, ()))
        doc.children.insert(0, node)
        return doc, [0]
    if name == 'Target':
        return doc.add(node), [0]
    rule = Node('Rule', [('RuleId', 'outer rule'), ('Effect', 'Permit')])
    if name == 'Rule':
        return doc.add(node), [0]
    doc.add(rule)
    for c in build.CAP.values():
        if name == c or name == c + 'Match':
            if name != c:
                node = Node(c, [], node)
            rule.add(Node('Target', [], Node(c + 's', [], node)))
            return doc, [0, 0, 0, 0] + ([0] if name != c else [])
    if name == 'Condition':
        rule.add(node)
        return doc, [0, 0]
    rule.add(Node('Condition', [], Node('Apply', [(
        'FunctionId', F1 + 'and')], node)))
    return doc, [0, 0, 0, 0]


def at(elem, path):
    for i in path:
        elem = [c for c in elem if isinstance(c.tag, str)][i]
    return elem


def part_job(ctx, job):
    for i, (name, node, what) in enumerate(shard(parts(), job)):
        ctx.sample('%s %r' % (name, what))
        ctx.case('%d %s %s' % (i, name, repr(what)[:80]), part, ctx, name, node,
                 what, STY if ctx.thorough else [STY[0], STY[1 + i % 7]])


def part(ctx, name, node, what, styles):
    L = build.lib()
    T, R = readers()[name]
    path = os.path.join(ctx.scratch, 'part.xml')
    for st in styles:
        data = build.to_bytes(node, st)
        with open(path, 'wb') as f:
            f.write(data)
        el = L.ET.fromstring(data)
        for src in (el, io.BytesIO(data), path, el):
            before = L.ET.tostring(el)
            o = R.parse(src, common())
            check(isinstance(o, T), 'read a %s' % name, T.__name__,
                  type(o).__name__)
            check(abstract(name, o) == what, '%s read alone (%s)' % (name, st.name),
                  what, abstract(name, o))
            check(L.ET.tostring(el) == before, 'reading changed the element')
            ctx.step()
        doc, where = parents(name, node)
        root = L.ET.fromstring(build.to_bytes(doc, st))
        inner = at(root, where)
        check(inner.tag.split('}')[-1] == name, 'place of the part', name,
              inner.tag)
        for k in range(2):
            o = R.parse(inner, common())
            check(abstract(name, o) == what, '%s read inside its document (%s)'
                  % (name, st.name), what, abstract(name, o))
            whole = L.ReaderFactory.getReader(L.PolicyBase).parse(root, common())
            check(inside(name, whole) == what, '%s of the document read (%s)' %
                  (name, st.name), what, inside(name, whole))
            ctx.step()
        ctx.state()
    ctx.outcome(name)


def inside(name, o):
    """the part put into its document by parents()"""
    if name in ('Policy', 'PolicySet'):
        return build.a_policy(o.policies[0])
    if name == 'PolicyDefaults':
        return o.policyDefaults.xpathVersion
    if name == 'PolicySetDefaults':
        return o.policySetDefaults.xpathVersion
    if name == 'Target':
        return build.a_target(o.target)
    r = o.rules[0]
    if name == 'Rule':
        return a_rule(r)
    for c, coll in zip(SECTIONS, ('subjects', 'resources', 'actions',
                                  'environments')):
        if name in (build.CAP[c], build.CAP[c] + 'Match'):
            return matches(getattr(r.target, coll)[0].matches)
    e = build.a_expr(r.condition.expression)
    return e if name == 'Condition' else e.args[0]


# -- the wrong element --------------------------------------------------------------
def lookalikes(name):
    out = [name.lower(), name.upper(), name + 's', name + 'Type', 'X' + name,
           name[:-1], name[1:], name + '_', name + '.', '_' + name,
           name[0].lower() + name[1:], name.swapcase(), name + name,
           name.replace('A', 'a'), name.replace('S', 's'), name + '-' + name]
    return [x for x in dict.fromkeys(out) if x and x != name]


ACCEPT = {'PolicyDefaults': ('PolicyDefaults', 'PolicySetDefaults'),
          'PolicySetDefaults': ('PolicyDefaults', 'PolicySetDefaults')}


def renamed(node, name):
    n = node.copy()
    n.tag = name
    return n


def wrong_job(ctx, job):
    kinds = by_kind()
    rs = dict(readers())
    L = build.lib()
    rs['Policy or PolicySet'] = (L.PolicyBase,
                                 L.ReaderFactory.getReader(L.PolicyBase))
    names = sorted(kinds) + ['Description', 'XPathVersion', 'Subjects', 'Resources',
                             'Actions', 'Environments', 'Request', 'Attribute',
                             'Obligations', 'VariableDefinition', 'Function',
                             'VariableReference', 'PolicyIdReference',
                             'PolicySetIdReference', 'CombinerParameters']
    todo = []
    for name in sorted(rs):
        ok = ('Policy', 'PolicySet') if ' or ' in name else ACCEPT.get(
            name, (name,))
        own = [x for o in ok for x in kinds[o]]
        for other in names:
            if other in ok:
                continue
            for k, (node, _) in enumerate(kinds.get(other, [])):
                todo.append((name, '%s %d' % (other, k), node))
            for k, (node, _) in enumerate(own):
                todo.append((name, 'as %s %d' % (other, k),
                             renamed(node, other)))
            todo.append((name, 'empty ' + other, Node(other)))
        for o in ok:
            for x in lookalikes(o):
                if x in ok:
                    continue
                for k, (node, _) in enumerate(kinds[o]):
                    todo.append((name, 'named %s %d' % (x, k), renamed(node, x)))
    for name, lab, node in shard(todo, job):
        key = '%s reader, %s' % (name, lab)
        ctx.sample(key)
        ctx.case(key, wrong, ctx, name, rs[name][1], node)
    for name in shard(sorted(rs), job):
        ok = ('Policy',) if ' or ' in name else (name,)
        for lab, mk in nothings(ctx):
            ctx.case('%s reader, %s' % (name, lab), nothing, ctx, rs[name][1], mk,
                     lab)
        for node, what in kinds[ok[0]]:
            ctx.case('%s reader, its own %s' % (name, repr(what)[:60]), right, ctx,
                     name, rs[name][1], node, what)


def wrong(ctx, name, R, node):
    L = build.lib()
    path = os.path.join(ctx.scratch, 'wrong.xml')
    for st in STY if ctx.thorough else STY[:3]:
        data = build.to_bytes(node, st)
        with open(path, 'wb') as f:
            f.write(data)
        for lab, src in (('element', L.ET.fromstring(data)),
                         ('stream', io.BytesIO(data)), ('path', path)):
            c = common()
            e = raises(R.parse, src, c)
            check(isinstance(e, L.XMLParseError),
                  '%s reader given a %s (%s, %s)' % (name, node.tag, lab, st.name),
                  'XMLParseError', repr(e))
            ctx.step()
        ctx.state()
    ctx.outcome('refused')


def right(ctx, name, R, node, what):
    for st in STY:
        o = R.parse(io.BytesIO(build.to_bytes(node, st)), common())
        check(abstract(name.split(' ')[0], o) == what, '%s (%s)' % (name, st.name),
              what, abstract(name.split(' ')[0], o))
        ctx.state()


def nothings(ctx):
    yield 'None', lambda: None
    yield 'number', lambda: 1
    yield 'list', lambda: []
    yield 'object', object
    yield 'no file', lambda: os.path.join(ctx.scratch, 'no', 'such.xml')
    yield 'directory', lambda: ctx.scratch
    yield 'empty stream', lambda: io.BytesIO(b'')
    yield 'no XML', lambda: io.BytesIO(b'nothing')
    yield 'broken XML', lambda: io.BytesIO(b'<a><b></a>')
    yield 'text', lambda: '<a/>'

    def closed():
        f = open(__file__, 'rb')
        f.close()
        return f
    yield 'closed file', closed


def nothing(ctx, R, mk, lab):
    e = raises(R.parse, mk(), common())
    check(e is not None, 'a reader given %s' % lab, 'an error', None)
    ctx.state()


# -- parts of requests and responses -----------------------------------------------------
CTX_PARTS = ('Request', 'Subject', 'Resource', 'Action', 'Environment',
             'Attribute', 'Response', 'Result', 'Decision')


def handlers():
    from ndg.xacml.parsers.etree import context as c
    return dict((n, getattr(c, n + 'ElementTree')) for n in CTX_PARTS)


def view(name, o):
    if name == 'Request':
        return seen(o)
    if name == 'Attribute':
        return attribute(o)
    if name == 'Response':
        return [view('Result', r) for r in o.results]
    if name == 'Result':
        return (o.resourceId, o.decision.value)
    if name == 'Decision':
        return o.value
    return section(o)


def response_nodes():
    res = []
    for d in ('Permit', 'Deny', 'Indeterminate', 'NotApplicable'):
        for i in (None, 'urn:mc:resource', ''):
            n = Node('Result', [] if i is None else [('ResourceId', i)],
                     Node('Decision', [], d))
            res.append(n)
            yield Node('Response', [], n)
    yield Node('Response')
    yield Node('Response', [], *res)
    for k in range(len(res)):
        yield Node('Response', [], res[k], res[(k * 5 + 3) % len(res)], res[k])


def context_nodes(thorough):
    for i, r in enumerate(requests()):
        if not thorough and i % 3:
            continue
        yield build.request_node(r)
    for n in response_nodes():
        yield n


def objects_in(name, o):
    """the parts of an object, in the order of their elements"""
    out = [(name, o)]
    if name == 'Request':
        for s in o.subjects:
            out += objects_in('Subject', s)
        for r in o.resources:
            out += objects_in('Resource', r)
        for n in ('Action', 'Environment'):
            x = getattr(o, n.lower())
            if x is not None:
                out += objects_in(n, x)
    elif name == 'Response':
        for r in o.results:
            out += objects_in('Result', r)
    elif name == 'Result':
        out += objects_in('Decision', o.decision)
    elif name not in ('Attribute', 'Decision'):
        for a in o.attributes:
            out += objects_in('Attribute', a)
    return out


def elements_in(e, top=True):
    """the elements of these parts; what is inside a resource's content is not"""
    out = []
    name = e.tag.split('}')[-1]
    if name in CTX_PARTS:
        out.append((name, e))
        if name != 'Attribute':
            for c in e:
                if isinstance(c.tag, str):
                    out += elements_in(c)
    return out


def context_job(ctx, job):
    for i, n in enumerate(shard(context_nodes(ctx.thorough), job)):
        ctx.sample(build.to_bytes(n, build.PLAIN, build.CONTEXT_NS).decode()[:200])
        ctx.case('%d %s %d' % (i, n.tag, len(n.children)), compositional, ctx, n,
                 STY if ctx.thorough else [STY[0], STY[1 + i % 7]])


def canonical(e):
    kids = tuple(canonical(c) for c in e if isinstance(c.tag, str))
    return (e.tag, tuple(sorted(e.attrib.items())),
            (e.text or '') if not kids else (e.text or '').strip(), kids)


def compositional(ctx, node, styles):
    L = build.lib()
    h = handlers()
    ns = build.CONTEXT_NS
    for st in styles:
        root = L.ET.fromstring(build.to_bytes(node, st, ns))
        whole = h[node.tag].fromXML(root)
        els = elements_in(root)
        obs = objects_in(node.tag, whole)
        # in a document the sections may come in any order
        want = sorted((n, repr(view(n, o))) for n, o in obs)
        got = sorted((n, repr(view(n, h[n].fromXML(e)))) for n, e in els)
        check(want == got, 'parts read alone (%s)' % st.name, want, got)
        ctx.step(len(els))
        if node.tag == 'Request' and (whole.action is None or
                                      whole.environment is None):
            ctx.state()
            continue
        out = h[node.tag].toXML(whole)
        want = [(n, canonical(e)) for n, e in elements_in(out)]
        got = [(n, canonical(h[n].toXML(o))) for n, o in obs]
        check(want == got, 'parts written alone (%s)' % st.name, want, got)
        ctx.step(len(obs))
        ctx.state()
    ctx.outcome(node.tag)


def context_kinds():
    a = spec.Attr('urn:mc:a', 'string', 'iss', ('v', 'w'))
    r = spec.Request(((None, (a,)), (OTHER_CATEGORY, (a, a))),
                     ((None, (a,)),), (a,), (a,))
    n = build.request_node(r)
    out = {'Request': [n], 'Response': list(response_nodes())[-3:]}
    for c in n.children:
        out.setdefault(c.tag, []).append(c)
    out['Attribute'] = [n.children[0].children[0]]
    out['Result'] = out['Response'][-1].children[:1]
    out['Decision'] = [out['Result'][0].children[0]]
    return out


OTHER_CATEGORY = ('urn:oasis:names:tc:xacml:1.0:subject-category:'
                  'intermediary-subject')


def cwrong_job(ctx, job):
    kinds = context_kinds()
    policy = by_kind()
    h = handlers()
    names = list(CTX_PARTS) + ['Status', 'StatusCode', 'Obligations',
                               'AttributeValue', 'ResourceContent', 'Policy',
                               'Rule', 'Target', 'Subjects', 'SubjectMatch']
    todo = []
    for name in CTX_PARTS:
        for other in names:
            if other == name:
                continue
            for n in kinds.get(other, []):
                todo.append((name, other, n))
            for n in kinds[name]:
                todo.append((name, 'as ' + other, renamed(n, other)))
            todo.append((name, 'empty ' + other, Node(other)))
        for other in sorted(policy):
            # a target's Subject isn't a request's, but is only told apart by
            # its namespace
            if other != name:
                todo.append((name, 'policy ' + other, policy[other][1][0]))
        for x in lookalikes(name):
            for n in kinds[name]:
                todo.append((name, 'named ' + x, renamed(n, x)))
    for i, (name, lab, n) in enumerate(shard(todo, job)):
        ctx.sample('%s %s' % (name, lab))
        ctx.case('%d %s, %s' % (i, name, lab), cwrong, ctx, name, h[name], n)
    for name in shard(CTX_PARTS, job):
        for lab, x in (('None', None), ('number', 1), ('text', 'Request'),
                       ('object', object()), ('list', [])):
            ctx.case('%s from %s' % (name, lab), cnothing, ctx, name, h[name], x)


def cwrong(ctx, name, h, node):
    L = build.lib()
    for st in STY:
        e = raises(h.fromXML, L.ET.fromstring(build.to_bytes(
            node, st, build.CONTEXT_NS)))
        check(isinstance(e, L.XMLParseError), '%s read from a %s (%s)' %
              (name, node.tag, st.name), 'XMLParseError', repr(e))
        ctx.state()
    ctx.outcome('refused')


def cnothing(ctx, name, h, x):
    e = raises(h.fromXML, x)
    check(e is not None, '%s read from %r' % (name, x), 'an error', None)
    ctx.state()


# -- the wrong object ----------------------------------------------------------------------
def objects():
    """(label, object, names of the writers that take it)"""
    from mc.c20 import World
    L = build.lib()
    w = World()
    h = handlers()
    base_ = {'Request': L.Request, 'Response': L.Response, 'Result': L.Result,
             'Decision': L.Decision, 'Attribute': L.Attribute}
    for c in SECTIONS:
        base_[build.CAP[c]] = L.section[c][3]
    pool = list(w.objects)
    for n in CTX_PARTS:
        pool.append((n + ' class', base_[n]))
        pool.append(('an element ' + n, L.ET.Element(n)))

        class Like(object):
            """Has every attribute, is none."""
            ELEMENT_LOCAL_NAME = n
            value = 'Permit'
            attributes = subjects = resources = results = attributeValues = ()
            action = environment = None
            attributeId = dataType = 'x'
            issuer = subjectCategory = resourceContent = resourceId = None
            decision = L.Decision('Permit')
        pool.append(('like ' + n, Like()))
        full = h[n].fromXML(L.ET.fromstring(build.to_bytes(
            context_kinds()[n][0], build.PLAIN, build.CONTEXT_NS)))
        pool.append(('full ' + n, full))
    for n in CTX_PARTS:
        sub = type('Sub' + n, (base_[n],), {})
        o = sub()
        pool.append(('derived ' + n, o))
    for lab, o in pool:
        yield lab, o, [n for n in CTX_PARTS if isinstance(o, base_[n])]


def filled(n, o):
    """an object that can be written"""
    L = build.lib()
    if n == 'Request':
        if o.action is None:
            o.action = L.section['action'][3]()
        if o.environment is None:
            o.environment = L.section['environment'][3]()
    if n == 'Attribute' and o.attributeId is None:
        o.attributeId = 'urn:mc:a'
        o.dataType = XS + 'string'
    if n == 'Result' and o.decision is None:
        o.decision = L.Decision('Deny')
    if n == 'Decision' and o.value is None:
        o.value = 'Deny'
    return o


def owrong_job(ctx, job):
    for lab, o, ok in objects():
        for n in CTX_PARTS:
            key = '%s written as %s' % (lab, n)
            ctx.sample(key)
            ctx.case(key, owrong, ctx, n, o, n in ok)


def owrong(ctx, n, o, ok):
    h = handlers()[n]
    if ok:
        o = filled(n, o)
        e = h.toXML(o)
        check(e.tag.split('}')[-1] == n, 'written %s' % n, n, e.tag)
        ctx.outcome('written')
    else:
        e = raises(h.toXML, o)
        check(isinstance(e, TypeError), '%s written as %s' % (type(o).__name__, n),
              'TypeError', repr(e))
        ctx.outcome('refused')
    ctx.state()


# -- arguments of the loaders and evaluators -------------------------------------------------
def loader_job(ctx, job):
    L = build.lib()
    from ndg.xacml.parsers import AbstractReaderFactory

    class Good(L.ReaderFactory):
        pass

    class NotAReader(AbstractReaderFactory):
        """Gives something that reads nothing."""
        @classmethod
        def getReader(cls, t):
            return dict

    class Anything(object):
        @classmethod
        def getReader(cls, t):
            return L.ReaderFactory.getReader(t)

    class FinderLike(object):
        def setReader(self, r):
            self.reader = r

        def findPolicy(self, *a):
            return None

        def addPolicyReference(self, p):
            pass
    finders = [('local', L.LocalPolicyFinder, True),
               ('url', lambda: L.UrlPolicyFinder(ctx.scratch), True),
               ('like', FinderLike, False), ('number', lambda: 1, False),
               ('text', lambda: 'file', False), ('object', object, False),
               ('class', lambda: L.LocalPolicyFinder, False),
               ('list', lambda: [1], False)]
    factories = [('factory', L.ReaderFactory, True), ('derived', Good, True),
                 ('anything', Anything, False), ('None', None, False),
                 ('number', 1, False), ('text', 'x', False), ('dict', dict, False),
                 ('instance', Anything(), False), ('object', object(), False),
                 ('base', L.PolicyBase, False), ('reader', L.ReaderFactory.getReader(
                     L.Policy), False)]
    pols = [p for p in corpus() if not repr(p).count('Ref(')]
    for i, p in enumerate(pols):
        for (fl, f, fok), (dl, d, dok) in itertools.product(factories, finders):
            if i > 1 and not ctx.thorough and (fok or dok) is False:
                continue
            key = '%d %s %s' % (i, fl, dl)
            ctx.sample(key)
            ctx.case(key, loaders, ctx, p, f, fok, d, dok)


def loaders(ctx, p, f, fok, d, dok):
    L = build.lib()
    data = build.policy_bytes(p)
    old = L.PDP.fromPolicySource(io.BytesIO(build.policy_bytes(spec.Policy(
        'old', ALGS[0], None, ()))), L.ReaderFactory, L.LocalPolicyFinder())
    was = old.policy
    own = L.Policy if isinstance(p, spec.Policy) else L.PolicySet
    other = L.PolicySet if own is L.Policy else L.Policy
    doc = io.BytesIO
    todo = [('any', lambda: L.PolicyBase.fromSource(doc(data), f, d()), fok and dok),
            ('decision point', lambda: L.PDP.fromPolicySource(
                doc(data), f, d()).policy, fok and dok),
            ('set', lambda: old.setPolicyFromSource(doc(data), f, d()),
             fok and dok),
            ('own', lambda: own.fromSource(doc(data), f), fok)]
    for lab, fn, ok in todo:
        got = None
        try:
            got = fn()
            e = None
        except Exception as x:
            e = x
        if ok:
            check(e is None, 'loading (%s)' % lab, None, repr(e))
            got = old.policy if lab == 'set' else got
            check(build.a_policy(got) == p, 'policy loaded (%s)' % lab, p,
                  build.a_policy(got))
        else:
            check(isinstance(e, TypeError), 'loading with a wrong argument (%s)'
                  % lab, 'TypeError', repr(e))
            if lab == 'set':
                check(old.policy is was, 'policy replaced by a failed loading')
        ctx.step()
    # a policy isn't a set of policies and the other way round
    e = raises(other.fromSource, doc(data), L.ReaderFactory)
    check(e is not None, 'a %s loaded as a %s' % (own.__name__, other.__name__),
          'an error', None)
    ctx.state()


def evaluate_job(ctx, job):
    """Designators and selectors are asked about requests only."""
    L = build.lib()
    from mc.c20 import World
    pool = [(n, o) for n, o in World().objects if not isinstance(o, L.Request)]

    class Like(object):
        """Has every attribute of a request, is none."""
        def __init__(self, r, s):
            self.subjects, self.resources = r.subjects, r.resources
            self.action, self.environment = r.action, r.environment
            self.ctxHandler, self.attributeSelector = None, s
            self.elem = r.elem
    a = spec.Attr('urn:mc:i', 'string', None, ('v',))
    doc = spec.Request(((None, (a,)),), ((Node('ResourceContent', [], Node(
        'x', [], 'v')), (a,)),), (a,), (a,))
    r = asked(doc)
    pool += [('like', Like(r, r.attributeSelector)), ('class', L.Request),
             ('element', r.elem), ('copy of attributes', dict(subjects=[]))]
    for lab, o in pool:
        for e in [Des(c, 'urn:mc:i', 'string', None, m)
                  for c in SECTIONS for m in (False, True)] + [
                      Sel('.//x', 'string', m) for m in (False, True)]:
            ctx.sample('%s %r' % (lab, e))
            ctx.case('%s %r' % (lab, e), evaluated, ctx, lab, o, e, doc)


def asked(doc):
    r = build.x_request(doc, build.STYLES[2])
    r.attributeSelector = build.lib().EtreeXPathSelector(r.elem)
    return r


def evaluated(ctx, lab, o, e, doc):
    L = build.lib()
    x = build.o_expr(e)
    got = raises(x.evaluate, o)
    check(isinstance(got, TypeError), '%s asked about %s' % (type(x).__name__, lab),
          'TypeError', repr(got))
    fn = F1 + 'string-at-least-one-member-of'
    for eff in 'PD':
        for cond in (Apply(fn, (e, Apply(F1 + 'string-bag', (val('v'),)))),):
            p = spec.Policy('p', ALGS[0], None, (spec.Rule('r', eff, None, cond),))
            pdp = build.o_pdp(p)
            try:
                d = pdp.evaluate(o).results[0].decision.value
            except Exception:
                d = 'error'
            check(d in ('error', 'Indeterminate'), 'decision about %s' % lab,
                  'none', d)
            ctx.step()
            good = pdp.evaluate(asked(doc)).results[0].decision.value
            check(good == spec.DECISION[eff], 'decision about a request afterwards',
                  spec.DECISION[eff], good)
    ctx.outcome('refused')
    ctx.state()


def run(ctx):
    {'part': part_job, 'wrong': wrong_job, 'context': context_job,
     'cwrong': cwrong_job, 'owrong': owrong_job, 'loader': loader_job,
     'evaluate': evaluate_job}[base(ctx.job)](ctx, ctx.job)
