"""Turns abstract policies / requests (mc.spec) into XML text in many
equivalent styles, and into objects of the library under test."""
import io
import itertools
import os

from mc import spec
from mc.spec import TYPE, Val, Des, Sel, Apply, Policy, PolicySet

POLICY_NS = 'urn:oasis:names:tc:xacml:2.0:policy:schema:os'
CONTEXT_NS = 'urn:oasis:names:tc:xacml:2.0:context:schema:os'
CAP = {'subject': 'Subject', 'resource': 'Resource', 'action': 'Action',
       'environment': 'Environment'}
CODE = {'Permit': 'P', 'Deny': 'D', 'Indeterminate': 'I', 'NotApplicable': 'N'}


# -- neutral XML trees --------------------------------------------------------
class Node(object):
    def __init__(self, tag, attrs=(), *children):
        self.tag, self.attrs, self.children = tag, list(attrs), list(children)

    def add(self, *c):
        self.children.extend(c)
        return self

    def walk(self, path=()):
        yield path, self
        for i, c in enumerate(self.children):
            if isinstance(c, Node):
                for x in c.walk(path + (i,)):
                    yield x

    def at(self, path):
        n = self
        for i in path:
            n = n.children[i]
        return n

    def copy(self):
        return Node(self.tag, list(self.attrs),
                    *[c.copy() if isinstance(c, Node) else c
                      for c in self.children])


def value_node(v):
    return Node('AttributeValue', [('DataType', TYPE.get(v.type, v.type))],
                *([v.value] if v.value != '' else []))


def expr_node(e, suffix='AttributeDesignator'):
    if isinstance(e, Val):
        return value_node(e)
    if isinstance(e, Des):
        n = Node(CAP[e.cat] + suffix, [('AttributeId', e.id),
                                       ('DataType', TYPE.get(e.type, e.type))])
        if e.issuer is not None:
            n.attrs.append(('Issuer', e.issuer))
        if e.mbp:
            n.attrs.append(('MustBePresent', 'true'))
        return n
    if isinstance(e, Sel):
        n = Node('AttributeSelector', [('RequestContextPath', e.path),
                                       ('DataType', TYPE.get(e.type, e.type))])
        if e.mbp:
            n.attrs.append(('MustBePresent', 'true'))
        return n
    n = Node('Apply', [('FunctionId', e.fn)])
    return n.add(*[expr_node(a) for a in e.args])


def target_node(t):
    n = Node('Target')
    for cat, entries in zip(spec.SECTIONS, t):
        if not entries:
            continue
        sec = Node(CAP[cat] + 's')
        for entry in entries:
            en = Node(CAP[cat])
            for m in entry:
                mn = Node(CAP[cat] + 'Match', [('MatchId', m.fn)],
                          value_node(m.val))
                if m.ref is not None:
                    mn.add(expr_node(m.ref))
                en.add(mn)
            sec.add(en)
        n.add(sec)
    return n


def policy_node(p, extras=False):
    """extras: Description, Version, PolicyDefaults elements everywhere."""
    if isinstance(p, spec.PolicyRef):
        return Node('PolicyIdReference', [], p.id)
    if isinstance(p, spec.PolicySetRef):
        return Node('PolicySetIdReference', [], p.id)
    if isinstance(p, Policy):
        n = Node('Policy', [('PolicyId', p.id), ('RuleCombiningAlgId',
                                                 alg_id('rule', p.alg))])
        pre = 'Policy'
    else:
        n = Node('PolicySet', [('PolicySetId', p.id), ('PolicyCombiningAlgId',
                                                       alg_id('policy', p.alg))])
        pre = 'PolicySet'
    if extras:
        n.attrs.append(('Version', '1.%d' % len(p.id)))
        n.add(Node('Description', [], 'About ' + p.id))
        n.add(Node(pre + 'Defaults', [], Node(
            'XPathVersion', [], 'http://www.w3.org/TR/1999/Rec-xpath-19991116')))
    if p.target is not None:
        n.add(target_node(p.target))
    if isinstance(p, PolicySet):
        return n.add(*[policy_node(c, extras) for c in p.children])
    for r in p.rules:
        rn = Node('Rule', [('RuleId', r.id), ('Effect',
                                              spec.DECISION[r.effect])])
        if extras:
            rn.add(Node('Description', [], 'About ' + r.id))
        if r.target is not None:
            rn.add(target_node(r.target))
        if r.cond is not None:
            rn.add(Node('Condition', [], expr_node(r.cond)))
        n.add(rn)
    return n


def alg_id(kind, alg):
    if ':' in alg:
        return alg
    return (spec.RULE_ALG if kind == 'rule' else spec.POLICY_ALG) + alg


def attr_node(a):
    n = Node('Attribute', [('AttributeId', a.id),
                           ('DataType', TYPE.get(a.type, a.type))])
    if a.issuer is not None:
        n.attrs.append(('Issuer', a.issuer))
    for v in a.values:
        n.add(Node('AttributeValue', [], *([v] if v != '' else [])))
    return n


def request_node(r):
    n = Node('Request')
    for cat, attrs in r.subjects:
        s = Node('Subject', [] if cat is None else [('SubjectCategory', cat)])
        n.add(s.add(*[attr_node(a) for a in attrs]))
    for content, attrs in r.resources:
        s = Node('Resource')
        if content is not None:
            s.add(content.copy() if isinstance(content, Node) else
                  Node('ResourceContent', [], *content))
        n.add(s.add(*[attr_node(a) for a in attrs]))
    for tag, attrs in (('Action', r.action), ('Environment', r.environment)):
        if attrs is not None:
            n.add(Node(tag, [], *[attr_node(a) for a in attrs]))
    return n


# -- serialisation styles -----------------------------------------------------
class Style(object):
    FIELDS = dict(prefix='', ns=True, pretty=False, comments=None, cdata=False,
                  charrefs=False, reverse=False, quote='"', decl='', encoding='utf-8',
                  comment_in_text=False, extras=False, doctype=False, selfclose=True)

    def __init__(self, name='plain', **kw):
        self.name = name
        for k, v in self.FIELDS.items():
            setattr(self, k, kw.pop(k, v))
        assert not kw, kw


PLAIN = Style()
STYLES = [
    PLAIN,
    Style('prefixed', prefix='xa:'),
    Style('nonamespace', ns=False),
    Style('pretty', pretty=True),
    Style('comments', comments='<!-- a <note> -->', pretty=True),
    Style('pis', comments='<?proc some="thing"?>'),
    Style('cdata', cdata=True),
    Style('charrefs', charrefs=True),
    Style('commentintext', comment_in_text=True),
    Style('reversed', reverse=True, quote="'"),
    Style('declared', decl='<?xml version="1.0" encoding="utf-8"?>\n',
          comments='<!--c-->'),
    Style('utf16', decl='<?xml version="1.0" encoding="utf-16"?>',
          encoding='utf-16'),
    Style('latin1', decl='<?xml version="1.0" encoding="iso-8859-1"?>',
          encoding='iso-8859-1'),
    Style('openclose', selfclose=False, pretty=True),
    Style('extras', extras=True, pretty=True, prefix='p:'),
]


def esc(s, q=None, refs=False):
    out = []
    for c in s:
        if refs and c not in ' \n\t':
            out.append('&#x%x;' % ord(c))
        elif c == '&':
            out.append('&amp;')
        elif c == '<':
            out.append('&lt;')
        elif c == '>':
            out.append('&gt;')
        elif q and c == q:
            out.append('&quot;' if q == '"' else '&apos;')
        elif q and c in '\n\t\r':
            out.append('&#%d;' % ord(c))
        elif c == '\r':
            out.append('&#13;')
        else:
            out.append(c)
    return ''.join(out)


def text_xml(s, st):
    if st.cdata and ']]>' not in s and '\r' not in s:
        return '<![CDATA[%s]]>' % s
    if st.comment_in_text and len(s) > 1:
        h = len(s) // 2
        return (esc(s[:h], refs=st.charrefs) + '<!-- cut --><?and this?>' +
                esc(s[h:], refs=st.charrefs))
    return esc(s, refs=st.charrefs)


def to_xml(node, st=PLAIN, ns=POLICY_NS, _top=True, _ind=0):
    attrs = list(node.attrs)
    if st.reverse:
        attrs.reverse()
    a = ''.join(' %s=%s%s%s' % (k, st.quote, esc(v, st.quote, st.charrefs), st.quote)
                for k, v in attrs)
    if _top and st.ns:
        if st.prefix:
            a = ' xmlns:%s="%s"' % (st.prefix.rstrip(':'), ns) + a
        else:
            a = ' xmlns="%s"' % ns + a
    tag = st.prefix + node.tag if not node.tag.startswith('!') else node.tag[1:]
    if not node.children:
        s = '<%s%s/>' % (tag, a) if st.selfclose else '<%s%s></%s>' % (tag, a, tag)
    else:
        mixed = any(not isinstance(c, Node) for c in node.children)
        parts = []
        for c in node.children:
            if isinstance(c, Node):
                x = to_xml(c, st, ns, False, _ind + 1)
                if mixed:
                    parts.append(x)
                else:
                    if st.comments:
                        parts.append(st.comments)
                    parts.append(('\n' + '  ' * (_ind + 1) if st.pretty else '') + x)
            else:
                parts.append(text_xml(c, st))
        if not mixed and st.comments:
            parts.append(st.comments)
        if not mixed and st.pretty:
            parts.append('\n' + '  ' * _ind)
        s = '<%s%s>%s</%s>' % (tag, a, ''.join(parts), tag)
    if _top:
        s = st.decl + (st.comments if st.comments and st.decl else '') + s
    return s


def to_bytes(node, st=PLAIN, ns=POLICY_NS):
    return to_xml(node, st, ns).encode(st.encoding)


def policy_bytes(p, st=PLAIN):
    return to_bytes(policy_node(p, st.extras), st)


def request_bytes(r, st=PLAIN):
    return to_bytes(request_node(r), st, CONTEXT_NS)


# -- library objects ----------------------------------------------------------
_L = None


class Lib(object):
    """Lazily imported names of the library under test."""

    def __init__(self):
        from ndg.xacml import importElementTree, Config
        self.Config = Config
        self.ET = importElementTree()
        from ndg.xacml.core.policy import Policy
        from ndg.xacml.core.policyset import PolicySet
        from ndg.xacml.core.policybase import PolicyBase
        from ndg.xacml.core.rule import Rule, Effect
        from ndg.xacml.core.target import Target
        from ndg.xacml.core.condition import Condition
        from ndg.xacml.core.apply import Apply
        from ndg.xacml.core import subject, resource, action, environment, match
        from ndg.xacml.core import attributedesignator as ad
        from ndg.xacml.core.attributeselector import AttributeSelector
        from ndg.xacml.core.attributevalue import (AttributeValue,
                                                   AttributeValueClassFactory)
        from ndg.xacml.core.attribute import Attribute
        from ndg.xacml.core.context import subject as cs, resource as cr
        from ndg.xacml.core.context import action as ca, environment as ce
        from ndg.xacml.core.context.request import Request
        from ndg.xacml.core.context.response import Response
        from ndg.xacml.core.context.result import Result, Decision
        from ndg.xacml.core.context.pdp import PDP
        from ndg.xacml.core.context.handler import CtxHandlerBase
        from ndg.xacml.core.functions import functionMap, AbstractFunction
        from ndg.xacml.parsers.etree.factory import ReaderFactory
        from ndg.xacml.parsers.etree.context import (RequestElementTree,
                                                     ResponseElementTree)
        from ndg.xacml.parsers import XMLParseError
        from ndg.xacml.utils.xpath_selector import EtreeXPathSelector
        from ndg.xacml.finder.localpolicyfinder import LocalPolicyFinder
        from ndg.xacml.finder.urlpolicyfinder import UrlPolicyFinder
        self.__dict__.update(
            Policy=Policy, PolicySet=PolicySet, PolicyBase=PolicyBase,
            Rule=Rule, Effect=Effect, Target=Target, Condition=Condition,
            Apply=Apply, AttributeSelector=AttributeSelector,
            AttributeValue=AttributeValue, Attribute=Attribute,
            Request=Request, Response=Response, Result=Result,
            Decision=Decision, PDP=PDP, CtxHandlerBase=CtxHandlerBase,
            functionMap=functionMap, AbstractFunction=AbstractFunction,
            ReaderFactory=ReaderFactory, XMLParseError=XMLParseError,
            RequestElementTree=RequestElementTree,
            ResponseElementTree=ResponseElementTree,
            EtreeXPathSelector=EtreeXPathSelector,
            LocalPolicyFinder=LocalPolicyFinder,
            UrlPolicyFinder=UrlPolicyFinder)
        self.valueClass = AttributeValueClassFactory()
        self.section = {
            'subject': (subject.Subject, match.SubjectMatch,
                        ad.SubjectAttributeDesignator, cs.Subject),
            'resource': (resource.Resource, match.ResourceMatch,
                         ad.ResourceAttributeDesignator, cr.Resource),
            'action': (action.Action, match.ActionMatch,
                       ad.ActionAttributeDesignator, ca.Action),
            'environment': (environment.Environment, match.EnvironmentMatch,
                            ad.EnvironmentAttributeDesignator, ce.Environment)}


def lib():
    global _L
    if _L is None:
        _L = Lib()
    return _L


def o_value(v):
    L = lib()
    t = TYPE.get(v.type, v.type)
    av = L.valueClass(t)()
    av.value = v.value
    return av


def o_expr(e):
    L = lib()
    if isinstance(e, Val):
        return o_value(e)
    if isinstance(e, Des):
        d = L.section[e.cat][2]()
        d.attributeId = e.id
        d.dataType = TYPE.get(e.type, e.type)
        if e.issuer is not None:
            d.issuer = e.issuer
        if e.mbp:
            d.mustBePresent = True
        return d
    if isinstance(e, Sel):
        s = L.AttributeSelector()
        s.requestContextPath = e.path
        s.dataType = TYPE.get(e.type, e.type)
        s.mustBePresent = e.mbp
        return s
    a = L.Apply()
    a.functionId = e.fn
    for x in e.args:
        a.expressions.append(o_expr(x))
    return a


def o_target(t):
    L = lib()
    target = L.Target()
    for cat, entries, coll in zip(spec.SECTIONS, t, (
            target.subjects, target.resources, target.actions,
            target.environments)):
        for entry in entries:
            child = L.section[cat][0]()
            for m in entry:
                mo = L.section[cat][1]()
                mo.matchId = m.fn
                mo.attributeValue = o_value(m.val)
                if isinstance(m.ref, Sel):
                    mo.attributeSelector = o_expr(m.ref)
                elif m.ref is not None:
                    mo.attributeDesignator = o_expr(m.ref)
                child.matches.append(mo)
            coll.append(child)
    return target


def o_rule(r):
    L = lib()
    ro = L.Rule()
    if r.id is not None:
        ro.id = r.id
    ro.effect = L.Effect(spec.DECISION[r.effect])
    if r.target is not None:
        ro.target = o_target(r.target)
    if r.cond is not None:
        c = L.Condition()
        c.expression = o_expr(r.cond)
        ro.condition = c
    return ro


def o_policy(p, defs=None):
    L = lib()
    if isinstance(p, (spec.PolicyRef, spec.PolicySetRef)):
        p = spec.lookup(p, defs)
    if isinstance(p, Policy):
        po = L.Policy()
        if p.id is not None:
            po.policyId = p.id
        po.ruleCombiningAlgId = alg_id('rule', p.alg)
        for r in p.rules:
            po.rules.append(o_rule(r))
    else:
        po = L.PolicySet()
        if p.id is not None:
            po.policySetId = p.id
        po.policyCombiningAlgId = alg_id('policy', p.alg)
        for c in p.children:
            po.policies.append(o_policy(c, defs))
    if p.target is not None:
        po.target = o_target(p.target)
    return po


def o_attr(a):
    L = lib()
    ao = L.Attribute()
    ao.attributeId = a.id
    ao.dataType = TYPE.get(a.type, a.type)
    if a.issuer is not None:
        ao.issuer = a.issuer
    for v in a.values:
        ao.attributeValues.append(o_value(Val(a.type, v)))
    return ao


def o_request(r):
    L = lib()
    ro = L.Request()
    for cat, attrs in r.subjects:
        s = L.section['subject'][3]()
        if cat is not None:
            s.subjectCategory = cat
        for a in attrs:
            s.attributes.append(o_attr(a))
        ro.subjects.append(s)
    for content, attrs in r.resources:
        s = L.section['resource'][3]()
        if content is not None:
            s.resourceContent = L.ET.fromstring(to_bytes(
                content if isinstance(content, Node) else
                Node('ResourceContent', [], *content), PLAIN, CONTEXT_NS))
        for a in attrs:
            s.attributes.append(o_attr(a))
        ro.resources.append(s)
    for cat, attrs in (('action', r.action), ('environment', r.environment)):
        if attrs is not None:
            o = L.section[cat][3]()
            for a in attrs:
                o.attributes.append(o_attr(a))
            setattr(ro, cat, o)
    return ro


def x_request(r, st=PLAIN):
    """Request parsed from XML text."""
    L = lib()
    elem = L.ET.fromstring(request_bytes(r, st))
    return L.RequestElementTree.fromXML(elem)


def x_pdp(p, st=PLAIN, finder=None):
    """PDP loaded from XML text (stream source)."""
    L = lib()
    return L.PDP.fromPolicySource(io.BytesIO(policy_bytes(p, st)),
                                  L.ReaderFactory, finder or L.LocalPolicyFinder())


def o_pdp(p, defs=None):
    return lib().PDP(o_policy(p, defs))


def decision_of(response):
    """Observed decision of a response, checking its shape."""
    L = lib()
    from mc.core import check
    check(isinstance(response, L.Response), 'not a Response', 'Response',
          type(response).__name__)
    check(len(response.results) == 1, 'number of results', 1,
          len(response.results))
    r = response.results[0]
    check(isinstance(r, L.Result) and isinstance(r.decision, L.Decision),
          'result without a decision', 'Decision', type(r).__name__)
    v = str(r.decision)
    check(v in CODE, 'unknown decision value', sorted(CODE), v)
    check(r.decision.value == v, 'decision value', v, r.decision.value)
    return CODE[v]


# -- library objects back to abstract syntax ------------------------------------
UNTYPE = {v: k for k, v in TYPE.items()}


def a_expr(o):
    L = lib()
    if isinstance(o, L.Apply):
        return Apply(o.functionId, tuple(a_expr(x) for x in o.expressions))
    if isinstance(o, L.AttributeSelector):
        return Sel(o.requestContextPath, UNTYPE.get(o.dataType, o.dataType),
                   bool(o.mustBePresent))
    if isinstance(o, L.AttributeValue):
        return Val(UNTYPE.get(o.dataType, o.dataType), o.value)
    for cat, classes in L.section.items():
        if isinstance(o, classes[2]):
            return Des(cat, o.attributeId, UNTYPE.get(o.dataType, o.dataType),
                       o.issuer, o.mustBePresent)
    return ('?', type(o).__name__)


def a_target(t):
    if t is None:
        return None
    out = []
    for cat, coll in zip(spec.SECTIONS, (t.subjects, t.resources, t.actions,
                                         t.environments)):
        out.append(tuple(tuple(
            spec.Match(m.matchId,
                       None if m.attributeValue is None else
                       a_expr(m.attributeValue),
                       a_expr(m.attributeDesignator) if m.attributeDesignator
                       is not None else
                       (a_expr(m.attributeSelector) if m.attributeSelector
                        is not None else None))
            for m in entry.matches) for entry in coll))
    return tuple(out)


def short_alg(kind, a):
    pre = spec.RULE_ALG if kind == 'rule' else spec.POLICY_ALG
    return a[len(pre):] if a is not None and a.startswith(pre) else a


def a_policy(o):
    L = lib()
    if isinstance(o, L.Policy):
        return Policy(o.policyId, short_alg('rule', o.ruleCombiningAlgId),
                      a_target(o.target), tuple(
                          spec.Rule(r.id, CODE.get(str(r.effect), str(r.effect)),
                                    a_target(r.target),
                                    None if r.condition is None else
                                    a_expr(r.condition.expression))
                          for r in o.rules))
    if isinstance(o, L.PolicySet):
        return PolicySet(o.policySetId,
                         short_alg('policy', o.policyCombiningAlgId),
                         a_target(o.target), tuple(a_policy(c)
                                                   for c in o.policies))
    return ('?', type(o).__name__)


def a_attrs(attrs):
    return tuple(spec.Attr(a.attributeId, UNTYPE.get(a.dataType, a.dataType),
                           a.issuer, tuple(v.value for v in a.attributeValues))
                 for a in attrs)


def a_request(o):
    """Abstract request; resource content as (tag, text, attributes, ...)."""
    return spec.Request(
        tuple((s.subjectCategory, a_attrs(s.attributes)) for s in o.subjects),
        tuple((a_elem(r.resourceContent), a_attrs(r.attributes))
              for r in o.resources),
        None if o.action is None else a_attrs(o.action.attributes),
        None if o.environment is None else a_attrs(o.environment.attributes))


def a_elem(e):
    if e is None:
        return None
    kids = []
    for c in e:
        if isinstance(c.tag, str):
            kids.append(a_elem(c))
            kids.append(c.tail or '')
    return (e.tag, tuple(sorted(e.attrib.items())), e.text or '', tuple(kids))
