"""A document that isn't a supported policy is rejected as a whole; a document
that is one means what the reference grammar says."""
import io
import itertools
import os

from mc import build, spec
from mc.build import Node
from mc.core import Mismatch, check
from mc.pdpcheck import base, shard
from mc.spec import *

EQ = F1 + 'string-equal'
CONTAINER = {build.CAP[c] + 's': c for c in SECTIONS}


class Reject(Exception):
    pass


class Unspec(Exception):
    """The property doesn't say what happens (schema-invalid documents that
    the library tolerates)."""


GOODFN = {EQ, F1 + 'string-one-and-only', F1 + 'string-bag', F1 + 'and',
          F1 + 'not', F1 + 'string-at-least-one-member-of',
          F1 + 'string-regexp-match', F2 + 'anyURI-regexp-match',
          F1 + 'anyURI-equal'}
BADFN = ['', 'string-equal', F1[:-1], F1, F1 + 'no-such-function', F1 + 'string-equal ',
         ' ' + EQ, EQ.upper(), F1 + 'String-Equal', EQ + 's', F1 + 'integer-add',
         F1 + 'any-of', F1 + 'map', F1 + 'string-normalize-space',
         F1 + 'xpath-node-count', F1 + 'string-is-in', F1 + 'or', F1 + 'n-of',
         F1 + 'string-greater-than', F2 + 'time-in-range', F2 + 'and',
         'urn:oasis:names:tc:xacml:3.0:function:string-equal',
         'urn:oasis:names:tc:xacml:1.1:function:string-equal',
         'urn:mc:function:none', 'http://x/y', ':', 'None']
EFFECTS = {'Permit': 'P', 'Deny': 'D'}
STRINGY = {'string', 'anyURI', 'x500Name', 'rfc822Name', 'ipAddress', 'dnsName'}
UNSUPPORTED = {'Obligations', 'CombinerParameters', 'RuleCombinerParameters',
               'PolicyCombinerParameters', 'PolicySetCombinerParameters',
               'VariableDefinition'}


def need(n, name):
    v = dict(n.attrs).get(name)
    if v is None:
        raise Reject('no %s' % name)
    return v


def kids(n):
    return [c for c in n.children if isinstance(c, Node)]


def text(n):
    if kids(n):
        raise Unspec('elements in text')
    return ''.join(n.children)


def bool_attr(n):
    v = dict(n.attrs).get('MustBePresent')
    if v is None:
        return False
    v = v.strip(' \t\r\n')
    if v.lower() in ('yes', 'no', 't', 'f') or v.lower() in (
            'true', 'false') and v != v.lower():
        raise Unspec('boolean')
    if v not in ('true', 'false', '1', '0'):
        raise Reject('boolean')
    return v in ('true', '1')


class Reader(object):
    """The reference grammar: Node tree -> abstract policy."""

    def __init__(self):
        self.pol, self.sets, self.rej, self.unspec = {}, {}, [], []

    def read(self, n):
        """-> ('ok', policy) | ('reject', why) | ('unspec', why)"""
        all_ids = [(x.tag, dict(x.attrs).get(x.tag + 'Id')) for _, x in n.walk()]
        self.defined = set(all_ids)
        p = None
        try:
            p = self.policy_or_set(n, True)
        except Reject as e:
            self.rej.append(str(e))
        except Unspec as e:
            self.unspec.append(str(e))
        if self.rej:
            return ('reject', self.rej[0])
        if self.unspec:
            return ('unspec', self.unspec[0])
        return ('ok', p)

    def guard(self, fn, *a):
        """Collect unspecified parts, but keep looking for reasons to reject."""
        try:
            return fn(*a)
        except Unspec as e:
            self.unspec.append(str(e))
        except Reject as e:
            self.rej.append(str(e))

    def policy_or_set(self, n, root=False):
        if n.tag == 'Policy':
            return self.policy(n)
        if n.tag == 'PolicySet':
            return self.policyset(n)
        raise Reject('element ' + n.tag)

    def head(self, n, kind):
        pid, alg = need(n, n.tag + 'Id'), need(n, kind + 'CombiningAlgId')
        pre = RULE_ALG if kind == 'Rule' else POLICY_ALG
        if not alg.startswith(pre) or alg[len(pre):] not in ALGS:
            raise Reject('algorithm')
        return pid, alg[len(pre):]

    def policy(self, n):
        pid, alg = self.head(n, 'Rule')
        t, rules = [], []
        for c in kids(n):
            if c.tag == 'Description':
                continue
            elif c.tag == 'PolicyDefaults':
                self.defaults(c)
            elif c.tag == 'Target':
                t.append(self.target(c))
            elif c.tag == 'Rule':
                r = self.guard(self.rule, c)
                if r is not None:
                    if r.id in [x.id for x in rules]:
                        raise Reject('duplicate rule id')
                    rules.append(r)
            else:
                raise Reject('%s in Policy' % c.tag)
        if len(t) > 1:
            raise Reject('repeated target or condition')
        p = Policy(pid, alg, t[-1] if t else None, tuple(rules))
        if pid in self.pol:
            raise Reject('duplicate policy id')
        self.pol[pid] = p
        return p

    def policyset(self, n):
        pid, alg = self.head(n, 'Policy')
        t, ch = [], []
        for c in kids(n):
            if c.tag == 'Description':
                continue
            elif c.tag == 'PolicySetDefaults':
                self.defaults(c)
            elif c.tag == 'Target':
                t.append(self.target(c))
            elif c.tag in ('Policy', 'PolicySet'):
                ch.append(self.policy_or_set(c))
            elif c.tag in ('PolicyIdReference', 'PolicySetIdReference'):
                ref = self.guard(text, c)
                known = self.pol if c.tag[6] == 'I' else self.sets
                if ref in known:
                    ch.append(known[ref])
                elif ref is not None:
                    # a forward reference could in principle be resolved
                    if ((c.tag[:-11], ref) in self.defined or
                            ref.strip() != ref):
                        self.unspec.append('forward reference')
                    else:
                        raise Reject('dangling reference')
            else:
                raise Reject('%s in PolicySet' % c.tag)
        if len(t) > 1:
            raise Reject('repeated target or condition')
        p = PolicySet(pid, alg, t[-1] if t else None, tuple(ch))
        if pid in self.sets:
            raise Reject('duplicate policy set id')
        self.sets[pid] = p
        return p

    def defaults(self, n):
        if [c.tag for c in kids(n)] != ['XPathVersion']:
            raise Reject('defaults')
        if kids(n)[0].children == []:
            raise Reject('no version')
        if kids(kids(n)[0]):
            self.unspec.append('elements in the version')

    def rule(self, n):
        rid, eff = need(n, 'RuleId'), need(n, 'Effect')
        if eff not in EFFECTS:
            raise Reject('effect')
        t, conds = [], []
        for c in kids(n):
            if c.tag == 'Description':
                continue
            elif c.tag == 'Target':
                t.append(self.target(c))
            elif c.tag == 'Condition':
                if len(kids(c)) != 1 or kids(c)[0].tag != 'Apply':
                    raise Reject('condition')
                conds.append(self.expr(kids(c)[0]))
            else:
                raise Reject('%s in Rule' % c.tag)
        if len(t) > 1 or len(conds) > 1:
            raise Reject('repeated target or condition')
        return Rule(rid, EFFECTS[eff], t[-1] if t else None,
                    conds[-1] if conds else None)

    def target(self, n):
        secs = {c: () for c in SECTIONS}
        seen = set()
        for c in kids(n):
            if c.tag not in CONTAINER:
                raise Reject('%s in Target' % c.tag)
            cat = CONTAINER[c.tag]
            if cat in seen:
                raise Reject('repeated section')
            seen.add(cat)
            for e in kids(c):
                if e.tag != build.CAP[cat]:
                    raise Reject('%s in %s' % (e.tag, c.tag))
                secs[cat] += (tuple(self.match(m, cat) for m in kids(e)),)
        return target(**secs)

    def match(self, n, cat):
        if n.tag != build.CAP[cat] + 'Match':
            raise Reject('%s in %s' % (n.tag, cat))
        fn = self.function(need(n, 'MatchId'))
        vals, refs = [], []
        for c in kids(n):
            if c.tag == 'AttributeValue':
                vals.append(self.expr(c))
            elif c.tag in (build.CAP[cat] + 'AttributeDesignator',
                           'AttributeSelector'):
                refs.append(self.expr(c))
            else:
                raise Reject('%s in match' % c.tag)
        if not vals or len(refs) != 1:
            raise Reject('match operands')
        if len(vals) > 1:       # in one of the repository's own policies
            self.unspec.append('values in match')
        return Match(fn, vals[-1] if vals else None, refs[-1] if refs else None)

    def function(self, f):
        if f in GOODFN:
            return f
        if f in BADFN:
            raise Reject('function')
        raise Unspec('function')

    def expr(self, n):
        if n.tag == 'AttributeValue':
            t = need(n, 'DataType')
            t = build.UNTYPE.get(t, None)
            if t not in STRINGY:
                raise Reject('data type')
            if n.children == []:
                raise Reject('no value')
            if kids(n):
                raise Unspec('mixed')
            return Val(t, text(n))
        if n.tag == 'Apply':
            fn = self.function(need(n, 'FunctionId'))
            return Apply(fn, tuple(self.expr(c) for c in kids(n)))
        if n.tag == 'AttributeSelector':
            t = need(n, 'DataType')
            s = Sel(need(n, 'RequestContextPath'), build.UNTYPE.get(t, t),
                    bool_attr(n))
        else:
            for cat in SECTIONS:
                if n.tag == build.CAP[cat] + 'AttributeDesignator':
                    t = need(n, 'DataType')
                    s = Des(cat, need(n, 'AttributeId'), build.UNTYPE.get(t, t),
                            dict(n.attrs).get('Issuer'), bool_attr(n))
                    break
            else:
                raise Reject('%s in expression' % n.tag)
        if kids(n):
            raise Reject('elements in designator')
        return s


# -- base documents ---------------------------------------------------------------
def bases():
    c = Apply(EQ, (val('v'), Apply(F1 + 'string-one-and-only', (
        Des('subject', 'urn:a', 'string', 'i', True),))))
    t = target(subject=((simple_match('subject', 'x'),),),
               resource=((Match(F1 + 'string-regexp-match', val('x'),
                                Sel('//x', 'string', True)),),))
    t2 = target(action=((simple_match('action', 'x'), simple_match(
        'action', 'y')), (simple_match('action', 'z'),)),
        environment=((simple_match('environment', 'x'),),))
    yield 'policy', build.policy_node(
        Policy('p', ALGS[0], t, (Rule('r1', 'P', t2, c), Rule('r2', 'D', None,
                                                              None))), True)
    yield 'bare', build.policy_node(Policy('p', ALGS[2], None, ()))
    yield 'set', build.policy_node(PolicySet('s', ALGS[1], t2, (
        Policy('p1', ALGS[0], None, (Rule('r1', 'P', None, None),)),
        PolicySet('s1', ALGS[0], None, (Policy('p2', ALGS[1], t, (
            Rule('r1', 'D', None, Apply(F1 + 'not', (c,))),)),)),
        PolicyRef('p1'), PolicySetRef('s1'))), True)
    yield 'chain', build.policy_node(PolicySet('s', ALGS[1], None, (
        PolicySet('s1', ALGS[0], None, (PolicySet('s2', ALGS[0], None, (
            Policy('p', ALGS[0], None, (Rule('r', 'P', None, None),)),)),)),
        Policy('q', ALGS[0], None, (Rule('r', 'P', None, None),)))))


TAGS = ['Policy', 'PolicySet', 'Rule', 'Target', 'Condition', 'Apply',
        'AttributeValue', 'AttributeSelector', 'Description', 'PolicyDefaults',
        'PolicySetDefaults', 'XPathVersion', 'PolicyIdReference',
        'PolicySetIdReference', 'Function', 'VariableReference', 'Bogus',
        'Expression', 'AnySubject', 'Request', 'policy', 'rule', 'target',
        'condition', 'Obligation'] + sorted(UNSUPPORTED) + [
    build.CAP[c] + s for c in SECTIONS for s in ('', 's', 'Match',
                                                 'AttributeDesignator')]
ATTRS = ['PolicyId', 'PolicySetId', 'RuleId', 'RuleCombiningAlgId',
         'PolicyCombiningAlgId', 'Effect', 'MatchId', 'FunctionId',
         'AttributeId', 'DataType', 'RequestContextPath', 'Id', 'Bogus']
ALGVALUES = [pre + a for pre in (
    RULE_ALG, POLICY_ALG, RULE_ALG.replace('1.0', '1.1'),
    POLICY_ALG.replace('1.0', '1.1'), RULE_ALG.replace('1.0', '2.0'),
    RULE_ALG.replace('1.0', '3.0'), POLICY_ALG.replace('1.0', '3.0'), '')
    for a in ALGS + ('only-one-applicable', 'ordered-deny-overrides',
                     'ordered-permit-overrides', 'Deny-Overrides',
                     'deny-overrides ', 'deny', '')]
VALUES = {
    'Effect': ['Permit', 'Deny', 'permit', 'DENY', 'Permit ', ' Deny', 'Allow',
               '', 'Indeterminate', 'NotApplicable', 'P', 'True', 'None',
               'PermitDeny', 'Deny;Permit'],
    'RuleCombiningAlgId': ALGVALUES, 'PolicyCombiningAlgId': ALGVALUES,
    'MatchId': sorted(GOODFN) + BADFN, 'FunctionId': sorted(GOODFN) + BADFN,
    'DataType': sorted(TYPE.values()) + ['', 'string', XS, XS + 'String',
                                         XS + 'string ', 'urn:none', XS + 'int'],
    'PolicyId': ['p', 'p1', 'p2', 'q', 's', 'new', 'P1'],
    'PolicySetId': ['s', 's1', 's2', 'p1', 'new', 'S1'],
    'RuleId': ['r', 'r1', 'r2', 'R1', 'p'],
    'MustBePresent': ['true', 'false', '1', '0', ' true ', '\tfalse', 'maybe',
                      '', 'truefalse', 'tru', 'rue', '2', '01', '-1', 'on',
                      'off', 'None', '1.0', 'true false', 'not true'],
    'AttributeId': ['urn:a', ''], 'Issuer': ['', 'j'],
    'RequestContextPath': ['//y'], 'Version': ['9'],
}


# elements of other namespaces; '!' marks a verbatim tag
FOREIGN = ['!fo:Bogus', '!fo:Obligations']
XMLNS = ('xmlns:fo', 'urn:mc:foreign')


def sample_content(tag):
    """An empty element, and a plausible one."""
    if tag[0] == '!':
        yield Node(tag, [XMLNS])
        return
    yield Node(tag)
    full = {
        'Policy': build.policy_node(Policy('new', ALGS[0], None, ())),
        'PolicySet': build.policy_node(PolicySet('new', ALGS[0], None, ())),
        'Rule': Node('Rule', [('RuleId', 'new'), ('Effect', 'Permit')]),
        'Condition': Node('Condition', [], Node('Apply', [
            ('FunctionId', F1 + 'and')])),
        'Apply': Node('Apply', [('FunctionId', F1 + 'and')]),
        'AttributeValue': build.value_node(val('new')),
        'AttributeSelector': build.expr_node(Sel('//n', 'string', False)),
        'Target': build.target_node(target(action=((simple_match(
            'action', 'new'),),))),
        'PolicyIdReference': Node('PolicyIdReference', [], 'p1'),
        'PolicySetIdReference': Node('PolicySetIdReference', [], 's1'),
        'PolicyDefaults': Node('PolicyDefaults', [], Node('XPathVersion', [], 'x')),
        'PolicySetDefaults': Node('PolicySetDefaults', [], Node(
            'XPathVersion', [], 'x')),
        'Function': Node('Function', [('FunctionId', EQ)]),
        'VariableReference': Node('VariableReference', [('VariableId', 'v')]),
        'VariableDefinition': Node('VariableDefinition', [('VariableId', 'v')],
                                   Node('Apply', [('FunctionId', F1 + 'and')])),
        'Obligations': Node('Obligations', [], Node('Obligation', [
            ('ObligationId', 'o'), ('FulfillOn', 'Permit')])),
    }
    for c in SECTIONS:
        e = build.target_node(target(**{c: ((simple_match(c, 'new'),),)}))
        full[build.CAP[c] + 's'] = e.children[0]
        full[build.CAP[c]] = e.children[0].children[0]
        full[build.CAP[c] + 'Match'] = e.children[0].children[0].children[0]
        full[build.CAP[c] + 'AttributeDesignator'] = build.expr_node(des(c))
    if tag in full:
        yield full[tag]


def mutations(doc):
    """Every single mutation: (name, function(copy) -> None)."""
    nodes = list(doc.walk())
    for path, n in nodes:
        where = '/'.join(map(str, path)) + ':' + n.tag
        for i, (k, v) in enumerate(n.attrs):
            yield '%s -@%s' % (where, k), path, lambda x, i=i: x.attrs.pop(i)
            for k2 in ATTRS + [k.lower()]:
                if k2 not in dict(n.attrs):
                    yield '%s @%s>%s' % (where, k, k2), path, \
                        lambda x, i=i, k2=k2, v=v: x.attrs.__setitem__(i, (k2, v))
            for v2 in VALUES.get(k, []):
                if v2 != v:
                    yield '%s @%s=%r' % (where, k, v2), path, \
                        lambda x, i=i, k=k, v2=v2: x.attrs.__setitem__(i, (k, v2))
        if path:
            for t in TAGS:
                if t != n.tag:
                    yield '%s >%s' % (where, t), path, \
                        lambda x, t=t: setattr(x, 'tag', t)
            for t in FOREIGN:
                yield '%s >%s' % (where, t), path, lambda x, t=t: rename(x, t)
        for t in TAGS if not path else []:
            if t != n.tag:
                yield '%s root>%s' % (where, t), path, \
                    lambda x, t=t: setattr(x, 'tag', t)
        for i, c in enumerate(n.children):
            yield '%s -%d' % (where, i), path, lambda x, i=i: x.children.pop(i)
            if isinstance(c, Node):
                yield '%s x2 %d' % (where, i), path, \
                    lambda x, i=i: x.children.insert(i, x.children[i].copy())
                # replaced by its own children
                yield '%s unwrap %d' % (where, i), path, \
                    lambda x, i=i: x.children.__setitem__(
                        slice(i, i + 1), x.children[i].children)
                yield '%s wrap %d' % (where, i), path, \
                    lambda x, i=i: x.children.__setitem__(
                        i, Node(n.tag, x.attrs, x.children[i]))
                if i:
                    yield '%s swap %d' % (where, i), path, \
                        lambda x, i=i: x.children.__setitem__(
                            slice(i - 1, i + 1), x.children[i - 1:i + 1][::-1])
        if not any(not isinstance(c, Node) for c in n.children):
            for t in TAGS + FOREIGN:
                for j, new in enumerate(sample_content(t)):
                    for pos in {0, len(n.children)}:
                        yield '%s +%s%d@%d' % (where, t, j, pos), path, \
                            lambda x, new=new, pos=pos: x.children.insert(
                                pos, new.copy())
    # subtrees moved below every other element
    for path, n in nodes:
        for dest, d in nodes:
            if path and dest != path[:-1] and dest[:len(path)] != path:
                yield 'move %s to %s:%s' % (path, dest, d.tag), (), \
                    lambda x, path=path, dest=dest: move(x, path, dest)


def rename(x, t):
    x.tag = t
    if XMLNS not in x.attrs:
        x.attrs.append(XMLNS)


def move(x, path, dest):
    n = x.at(path)
    d = x.at(dest)
    x.at(path[:-1]).children.pop(path[-1])
    d.children.append(n)


def nosharing(d):
    return d.copy()


OLD = Policy('old', ALGS[0], None, (Rule('r', 'D', None, None),))


def judge(ctx, doc, style):
    """Load doc and compare with the reference grammar."""
    verdict, want = Reader().read(doc)
    L = build.lib()
    data = build.to_bytes(doc, style)
    pdp = build.o_pdp(OLD)
    old = pdp.policy
    try:
        pdp.setPolicyFromSource(io.BytesIO(data), L.ReaderFactory,
                                L.LocalPolicyFinder())
    except Exception as e:
        if verdict == 'ok':
            raise Mismatch('a supported policy was rejected (%s: %s)' % (
                type(e).__name__, str(e)[:200]), repr(want)[:300], data[:2000])
        check(pdp.policy is old and build.a_policy(old) == OLD,
              'a rejected document replaced the policy', OLD, pdp.policy)
        ctx.outcome(verdict + '/rejected')
    else:
        if verdict == 'reject':
            raise Mismatch('an unsupported document was accepted', want,
                           data[:3000])
        if verdict == 'ok':
            got = build.a_policy(pdp.policy)
            if got != want:
                raise Mismatch('loaded policy differs', repr(want), repr(got))
        ctx.outcome(verdict + '/accepted')
    ctx.step()


def mutate(ctx, job):
    docs = dict(bases())
    names = sorted(docs)
    todo = ((name, m) for name in names for m in mutations(docs[name]))
    for k, (name, (mname, path, fn)) in enumerate(shard(todo, job)):
        key = '%s %s' % (name, mname)
        ctx.sample(key)
        ctx.case(key, one, ctx, docs[name], [(path, fn)],
                 build.STYLES[(0, 1, 4, 9)[k % 4]])


def one(ctx, doc, muts, style):
    d = doc.copy()
    for path, fn in muts:
        fn(d.at(path))
    d = d.copy()
    judge(ctx, d, style)
    ctx.state()


def double(ctx, job):
    """Pairs of mutations of a small document."""
    doc = build.policy_node(Policy('p', ALGS[0], target(action=((simple_match(
        'action', 'x'),),)), (Rule('r', 'P', None, Apply(F1 + 'not', (
            Apply(EQ, (val('a'), val('b'))),))),)))
    ms = [m for m in mutations(doc) if not m[0].startswith('move')]
    if not ctx.thorough:
        ms = ms[::7]
    for (a, pa, fa), (b, pb, fb) in shard(itertools.combinations(ms, 2), job):
        ctx.case('%s & %s' % (a, b), two, ctx, doc, pa, fa, pb, fb)


def two(ctx, doc, pa, fa, pb, fb):
    d = doc.copy()
    x, y = d.at(pa), d.at(pb)
    try:
        fb(y)
        fa(x)
    except (IndexError, AttributeError):
        return                  # b doesn't apply after a
    if any(len(dict(x.attrs)) < len(x.attrs) for _, x in d.walk()):
        return                  # not XML
    judge(ctx, d.copy(), build.PLAIN)
    ctx.state()


def broken(ctx, job):
    """Not XML, or no document at all."""
    L = build.lib()
    for name, doc in bases():
        for st in (build.PLAIN, build.STYLES[10], build.STYLES[11]):
            data = build.to_bytes(doc, st)
            end = len(data.rstrip())
            for i in range(end):
                ctx.case('%s %s cut at %d' % (name, st.name, i), cut, ctx,
                         data[:i])
    for i, junk in enumerate([b'', b' ', b'<', b'<a', b'<a>', b'</a>', b'x', b'<a/><b/>',
                 b'<a b=c/>', b'<a></b>', b'\x00', b'\xff\xfe', b'{}', b'<a/>',
                 b'<Request/>', b'<a>&undefined;</a>', b'<a b="1" b="2"/>',
                 b'<Rule RuleId="r" Effect="Permit"/>', b'<Target/>',
                 b'<!-- only -->', b'<?xml version="1.0"?>']):
        ctx.case('junk %d' % i, cut, ctx, junk)
    d = ctx.scratch
    for name, s in (('missing', os.path.join(d, 'none.xml')), ('dir', d),
                    ('int', 3), ('none', None), ('list', []), ('object',
                                                               object())):
        for finder in (None, 'local'):
            ctx.case('source %s %s' % (name, finder), nosource, ctx, s, finder)


def cut(ctx, data):
    L = build.lib()
    pdp = build.o_pdp(OLD)
    old = pdp.policy
    try:
        pdp.setPolicyFromSource(io.BytesIO(data), L.ReaderFactory,
                                L.LocalPolicyFinder())
    except Exception:
        pass
    else:
        raise Mismatch('accepted', 'rejection', data[-60:])
    check(pdp.policy is old, 'policy replaced')
    ctx.step()
    ctx.state()


def nosource(ctx, s, finder):
    L = build.lib()
    try:
        pdp = L.PDP.fromPolicySource(s, L.ReaderFactory, L.LocalPolicyFinder()
                                     if finder else None)
    except Exception:
        pass
    else:
        raise Mismatch('accepted', 'rejection', repr(s))
    ctx.step()
    ctx.state()


def ids(ctx, job):
    """Duplicate identifiers, wherever they are."""
    L = build.lib()
    for n in range(2, 6):
        for i, j in itertools.combinations(range(n), 2):
            names = ['r%d' % k for k in range(n)]
            names[j] = names[i]
            rs = tuple(Rule(x, 'PD'[k % 2], None, None)
                       for k, x in enumerate(names))
            p = Policy('p', ALGS[0], None, rs)
            for wrap in (0, 1, 2):
                q = p
                for w in range(wrap):
                    q = PolicySet('s%d' % w, ALGS[0], None, (q,))
                ctx.case('rules %d %d of %d in %d' % (i, j, n, wrap), one, ctx,
                         build.policy_node(q), [], build.PLAIN)
                if not wrap:
                    ctx.case('rules %d %d of %d direct' % (i, j, n), direct,
                             ctx, p)
    # trees with leaves at different depths; ids assigned with one clash
    shapes = [(1, 1), ((1,), 1), (1, (1, 1)), (((1,),), (1,)), ((1, 1), (1, 1)),
              (((1,), 1), ((1,), 1))]
    for si, shape in enumerate(shapes):
        npol = flat(shape)
        nset = sets(shape)
        for kind, n in (('p', npol), ('s', nset)):
            for i, j in itertools.combinations(range(n), 2):
                ctx.case('%s %d %d shape %d' % (kind, i, j, si), one, ctx,
                         build.policy_node(tree(shape, kind, i, j)), [],
                         build.PLAIN)
        ctx.case('fine %d' % si, one, ctx, build.policy_node(
            tree(shape, 'p', 0, 0)), [], build.PLAIN)
        # a policy and a set may share an id, rules of different policies too
        ctx.case('mixed %d' % si, one, ctx, build.policy_node(
            tree(shape, 'p', 0, 0, 'x')), [], build.PLAIN)


def direct(ctx, p):
    L = build.lib()
    try:
        L.Policy.fromSource(io.BytesIO(build.policy_bytes(p)), L.ReaderFactory)
    except Exception:
        ctx.step()
        return
    raise Mismatch('duplicate rule id accepted', 'rejection', p)


def flat(s):
    return 1 if s == 1 else sum(flat(x) for x in s)


def sets(s):
    return 0 if s == 1 else 1 + sum(sets(x) for x in s)


def tree(shape, kind, i, j, prefix=None):
    np, ns = itertools.count(), itertools.count()

    def name(k, n):
        if k == kind and n == j:
            n = i
        return (prefix or k) + str(n)

    def mk(s):
        if s == 1:
            return Policy(name('p', next(np)), ALGS[0], None,
                          (Rule('r', 'P', None, None),))
        n = next(ns)
        return PolicySet(name('s', n), ALGS[1], None, tuple(mk(x) for x in s))
    return mk(shape)


def run(ctx):
    globals()[base(ctx.job)](ctx, ctx.job)
