"""Custom data types and readers: used as registered, and by nothing else."""
import io
import itertools

from mc import build, spec
from mc.build import Node
from mc.core import Mismatch, check, raises
from mc.pdpcheck import base, shard
from mc.spec import *

COUNT = itertools.count()
NAMES = 'XY'
STD = TYPE['string']


def kit():
    """Value classes and data type readers told apart by tags."""
    from ndg.xacml.core.attributevalue import (AttributeValue,
                                               AttributeValueClassFactory,
                                               AttributeValueClassMap)
    from ndg.xacml.parsers.etree.attributevaluereader import (
        DataTypeReaderClassFactory, ETreeDataTypeReaderBase)
    from ndg.xacml.parsers.etree import QName, getElementChildren, getElementText

    class Kit(object):
        pass
    k = Kit()
    k.AttributeValue, k.Factory = AttributeValue, AttributeValueClassFactory
    k.Map, k.Readers = AttributeValueClassMap, DataTypeReaderClassFactory
    k.ReaderBase, k.text = ETreeDataTypeReaderBase, getElementText
    k.children = getElementChildren
    k.local = QName.getLocalPart
    k.classes, k.readers = {}, {}
    for n in NAMES:
        class Value(AttributeValue):
            TYPE = str
            IDENTIFIER = 'urn:mc:type:unused'
            NAME = n

        class Reader(ETreeDataTypeReaderBase):
            NAME = n

            @classmethod
            def parse(cls, elem, attributeValue):
                attributeValue.value = cls.NAME + (getElementText(elem) or '')
        k.classes[n], k.readers[n] = Value, Reader
    k.std = {t: k.Factory()(t) for t in TYPE.values()}
    k.stdread = {t: k.Readers.MAP[t] for t in TYPE.values()}
    return k


# -- histories of registrations, loads --------------------------------------------
def bad_classes(k):
    return {'dict': dict, 'instance': k.std[STD]('x'), 'none': None,
            'text': 'StringAttributeValue', 'reader': k.readers['X']}


def bad_readers(k):
    return {'dict': dict, 'instance': k.ReaderBase(), 'none': None,
            'class': k.classes['X']}


BAD_IDS = {'noid': None, 'bytes': b'urn:mc', 'number': 7, 'tuple': ('urn:mc',)}


def ops(k):
    out = []
    for i in 'ab':
        out += [('class', i, n, o) for n in NAMES for o in (False, True)]
        out += [('reader', i, n) for n in NAMES]
        out += [('policy', i), ('request', i)]
    out += [('class', 'std', 'X', False)]
    out += [('class', 'a', b, o) for b in bad_classes(k) for o in (False, True)]
    out += [('class', b, 'X', o) for b in BAD_IDS for o in (False, True)]
    out += [('reader', 'a', b) for b in bad_readers(k)]
    out += [('reader', b, 'X') for b in BAD_IDS]
    return out


def histories(ctx, job):
    k = kit()
    o = ops(k)
    core = [x for x in o if x[0] in ('policy', 'request') or
            x[1] in ('a', 'b') and x[2] in NAMES]
    n = 4 if ctx.thorough else 3
    hs = itertools.chain(*[itertools.product(o if j <= 3 else core, repeat=j)
                           for j in range(n + 1)])
    for h in shard(hs, job):
        ctx.sample(repr(h))
        ctx.case(repr(h), history, ctx, k, h)


def policy_with(*typed):
    """A policy with one value of each of the types in its condition."""
    return Policy('urn:mc:p', 'deny-overrides', None, (
        Rule('urn:mc:r', 'P', None, Apply(F1 + 'string-equal', tuple(
            Val(t, x) for t, x in typed))),))


def load(p):
    L = build.lib()
    return L.Policy.fromSource(io.BytesIO(build.policy_bytes(p)), L.ReaderFactory)


def values_in(policy):
    return list(policy.rules[0].condition.expression.expressions)


def history(ctx, k, h):
    serial = next(COUNT)
    ids = {i: 'urn:mc:type:%s:%d' % (i, serial) for i in 'ab'}
    old = k.Factory()
    private_map = k.Map()
    private_map['urn:mc:private'] = k.classes['Y']
    private = k.Factory(private_map)
    classes, readers, kept = {}, {}, []
    for n, op in enumerate(h):
        ctx.step()
        if op[0] == 'class':
            i = ids.get(op[1]) if op[1] in ids else \
                STD if op[1] == 'std' else BAD_IDS[op[1]]
            good = op[2] in NAMES and op[1] not in BAD_IDS
            c = k.classes[op[2]] if op[2] in NAMES else bad_classes(k)[op[2]]
            if op[3]:
                err = raises(k.Factory.addClass, i, c, overwrite=True)
            else:
                err = raises(k.Factory.addClass, i, c)
            check((err is None) == good, 'registration of a class %r' % (op,),
                  good, repr(err))
            if good and op[1] != 'std' and (op[3] or op[1] not in classes):
                classes[op[1]] = op[2]
        elif op[0] == 'reader':
            good = op[2] in NAMES and op[1] not in BAD_IDS
            i = ids[op[1]] if op[1] in ids else BAD_IDS[op[1]]
            r = k.readers[op[2]] if op[2] in NAMES else bad_readers(k)[op[2]]
            err = raises(k.Readers.addReader, i, r)
            check((err is None) == good, 'registration of a reader %r' % (op,),
                  good, repr(err))
            if good:
                readers[op[1]] = op[2]
        elif op[0] == 'policy':
            use(ctx, k, ids[op[1]], 't%d' % n, classes.get(op[1]),
                readers.get(op[1]), kept)
        else:
            use_request(k, ids[op[1]], classes.get(op[1]))
    for i in 'ab':
        for f in (old, k.Factory()):
            c = f(ids[i])
            check(c is (k.classes[classes[i]] if i in classes else None),
                  'class of a type', classes.get(i), repr(c))
        check(private(ids[i]) is None, 'factory with a map of its own knows',
              None, private(ids[i]))
        use(ctx, k, ids[i], 'end', classes.get(i), readers.get(i), kept)
    for t, c in k.std.items():
        check(old(t) is c and k.Factory()(t) is c, 'class of a standard type', t,
              repr(old(t)))
        check(k.Readers.MAP[t] is k.stdread[t], 'reader of a standard type', t,
              repr(k.Readers.MAP[t]))
        check(private(t) is None, 'factory with a map of its own knows', None, t)
    check(private('urn:mc:private') is k.classes['Y'], 'private class', 'Y')
    for b in BAD_IDS.values():
        check(b not in k.Factory.IDENTIFIER2CLASS_MAP and
              b not in k.Readers.MAP, 'identifier which isn\'t text was '
              'registered', None, repr(b))
    for v, c, x, t in kept:
        check(type(v) is k.classes[c] and v.value == x and v.dataType == t,
              'value of a policy read before changed', (c, x, t),
              (type(v), v.value, v.dataType))
    ctx.outcome('%r %r kept %d' % (sorted(classes.items()),
                                   sorted(readers.items()), len(kept)))
    ctx.state()


def use(ctx, k, tid, x, c, r, kept):
    p = policy_with((tid, x), ('string', x))
    try:
        po = load(p)
    except Exception as e:
        check(c is None or r is None, 'policy with a custom value', (c, r),
              repr(e))
        return
    check(c is not None and r is not None,
          'policy read with a type without class or reader', (c, r), po)
    v, s = values_in(po)
    check(type(v) is k.classes[c], 'class of the value read', c, type(v))
    check(v.value == r + x, 'value read', r + x, v.value)
    check(v.dataType == tid, 'type of the value read', tid, v.dataType)
    check(type(s) is k.std[STD] and s.value == x, 'string read beside', x,
          s.value)
    kept.append((v, c, r + x, tid))


def use_request(k, tid, c):
    L = build.lib()
    a = Attr('urn:mc:id', tid, None, ('q',))
    r = request(subject=[a], action=[attr('action', 'go')], environment=[])
    try:
        ro = build.x_request(r)
    except Exception as e:
        check(c is None, 'request with a custom value', c, repr(e))
        return
    check(c is not None, 'request read with a type without class', None, ro)
    v = ro.subjects[0].attributes[0].attributeValues[0]
    check(type(v) is k.classes[c] and v.value == 'q', 'value of a request',
          c, (type(v), v.value))


# -- structured values deciding ----------------------------------------------------
PAIRS = (('g', 'r'), ('g', None), ('h', 'r'))


def structured(k, name):
    """A data type whose values are pairs, with functions; as the test suite
    and the users of the library do."""
    from ndg.xacml.core.functions.v1.bag import BagBase
    from ndg.xacml.core.functions.v1.at_least_one_member_of import \
        AtLeastOneMemberOfBase
    L = build.lib()

    class Pair(k.AttributeValue):
        IDENTIFIER = 'urn:mc:pair:' + name
        TYPE = dict
        __slots__ = ('group', 'role')

        def __init__(self):
            super(Pair, self).__init__()
            self.group, self.role = None, 'default'

        @property
        def value(self):
            return self.group, self.role

    class PairBag(BagBase):
        TYPE = Pair
        FUNCTION_NS = 'urn:mc:pair:%s-bag' % name

    class PairAny(AtLeastOneMemberOfBase):
        TYPE = Pair
        FUNCTION_NS = 'urn:mc:pair:%s-at-least-one-member-of' % name

    class Same(L.AbstractFunction):
        FUNCTION_NS = 'urn:mc:pair:%s-equal' % name

        def evaluate(self, a, b):
            if type(a) is not Pair or type(b) is not Pair:
                raise TypeError('pairs wanted')
            return a.value == b.value

    class Reader(k.ReaderBase):
        @classmethod
        def parse(cls, elem, attributeValue):
            if type(attributeValue) is not Pair:
                raise TypeError('wrong class')
            inner = list(k.children(elem))
            if len(inner) != 1 or k.local(inner[0].tag) != 'pair':
                raise L.XMLParseError('one pair wanted')
            for e in k.children(inner[0]):
                setattr(attributeValue, k.local(e.tag), k.text(e))
    k.Factory.addClass(Pair.IDENTIFIER, Pair)
    k.Readers.addReader(Pair.IDENTIFIER, Reader)
    for f in (PairBag, PairAny, Same):
        L.functionMap[f.FUNCTION_NS] = f
    return Pair


def pair_node(name, p):
    inner = Node('pair', [], Node('group', [], p[0]))
    if p[1] is not None:
        inner.add(Node('role', [], p[1]))
    return Node('AttributeValue', [('DataType', 'urn:mc:pair:' + name)], inner)


def full(p):
    return (p[0], p[1] or 'default')


def designator_node(name, issuer, suffix='SubjectAttributeDesignator'):
    n = Node(suffix, [('AttributeId', 'urn:mc:id'),
                      ('DataType', 'urn:mc:pair:' + name)])
    if issuer:
        n.attrs.append(('Issuer', issuer))
    return n


def pair_policy(name, held, issuer, where):
    """Permits those who hold one of the pairs."""
    rule = Node('Rule', [('RuleId', 'urn:mc:r'), ('Effect', 'Permit')])
    pol = Node('Policy', [('PolicyId', 'urn:mc:p'),
                          ('RuleCombiningAlgId', RULE_ALG + 'deny-overrides')])
    if where == 'condition':
        bag = Node('Apply', [('FunctionId', 'urn:mc:pair:%s-bag' % name)],
                   *[pair_node(name, p) for p in held])
        rule.add(Node('Condition', [], Node(
            'Apply', [('FunctionId',
                       'urn:mc:pair:%s-at-least-one-member-of' % name)],
            designator_node(name, issuer), bag)))
    else:
        subs = Node('Subjects', [], *[
            Node('Subject', [], Node(
                'SubjectMatch', [('MatchId', 'urn:mc:pair:%s-equal' % name)],
                pair_node(name, p), designator_node(name, issuer)))
            for p in held])
        (pol if where == 'target' else rule).add(
            Node('Target', [], *([subs] if held else [])))
    return pol.add(rule)


def decisions(ctx, job):
    k = kit()
    L = build.lib()
    kinds = {n: structured(k, n) for n in ('one', 'two')}
    helds = [c for j in range(3) for c in itertools.combinations(PAIRS, j)]
    helds += [(PAIRS[0], PAIRS[0])]
    request_values = [c for j in range(3)
                      for c in itertools.product(PAIRS, repeat=j)]
    attrs = [(t, i) for t in kinds for i in (None, 'I')]
    reqs = []
    for vs in request_values:
        for n in range(len(vs) + 1):
            for a, b in itertools.product(attrs, repeat=2):
                if (n == len(vs) and b != attrs[0]) or (n == 0 and a != attrs[0]):
                    continue
                reqs.append(((a, vs[:n]), (b, vs[n:])))
    styles = build.STYLES
    combos = itertools.product(kinds, helds, (None, 'I'),
                               ('condition', 'target', 'rule'))
    for m, (name, held, issuer, where) in enumerate(combos):
        doc = pair_policy(name, held, issuer, where)
        use_styles = styles if ctx.thorough else [styles[0],
                                                  styles[1 + m % 14]]
        for st in shard(use_styles, job):
            key = (name, held, issuer, where, st.name)
            ctx.sample(repr(key))
            ctx.case(repr(key), decide_all, ctx, kinds, doc, st, name, held,
                     issuer, where, reqs)


def decide_all(ctx, kinds, doc, st, name, held, issuer, where, reqs):
    L = build.lib()
    pdp = L.PDP.fromPolicySource(io.BytesIO(build.to_bytes(doc, st)),
                                 L.ReaderFactory)
    for r in reqs:
        ro = L.Request()
        s = L.section['subject'][3]()
        ro.subjects.append(s)
        have = set()
        for (t, i), vs in r:
            if not vs:
                continue
            a = L.Attribute()
            a.attributeId, a.dataType = 'urn:mc:id', kinds[t].IDENTIFIER
            if i:
                a.issuer = i
            for p in vs:
                v = kinds[t]()
                v.group, v.role = full(p)
                a.attributeValues.append(v)
                if t == name and issuer in (None, i):
                    have.add(full(p))
            s.attributes.append(a)
        hit = bool(have & set(full(p) for p in held))
        if where != 'condition' and not held:
            hit = True              # a target without matches matches all
        want = 'P' if hit else 'N'
        got = build.decision_of(pdp.evaluate(ro))
        check(got == want, 'decision with custom values for %r' % (r,), want, got)
        ctx.state()
        ctx.step()
    ctx.outcome((name, where, len(held)))


# -- readers of elements -----------------------------------------------------------
WITH = ('Rule', 'Target', 'Condition', 'AttributeValue', 'SubjectMatch',
        'SubjectAttributeDesignator', 'Subject', 'Policy')


def parts(o, out=None):
    """Every library object in a policy by the name of its element."""
    L = build.lib()
    if out is None:
        out = {n: [] for n in WITH}

    def put(n, x):
        if n in out:
            out[n].append(x)
    if isinstance(o, L.PolicySet):
        put('PolicySet', o)
        for c in o.policies:
            parts(c, out)
    elif isinstance(o, L.Policy):
        put('Policy', o)
        for r in o.rules:
            put('Rule', r)
            if r.condition is not None:
                put('Condition', r.condition)
                exprs(r.condition.expression, put)
            targets(r.target, put)
    targets(o.target, put)
    return out


def exprs(e, put):
    L = build.lib()
    if isinstance(e, L.Apply):
        for x in e.expressions:
            exprs(x, put)
    elif isinstance(e, L.AttributeValue):
        put('AttributeValue', e)
    else:
        put(type(e).__name__, e)


def targets(t, put):
    if t is None:
        return
    put('Target', t)
    for coll in (t.subjects, t.resources, t.actions, t.environments):
        for entry in coll:
            put(type(entry).__name__, entry)
            for m in entry.matches:
                put(type(m).__name__, m)
                exprs(m.attributeValue, put)
                exprs(m.attributeDesignator, put)


def sample_set():
    def m(cat, v):
        return simple_match(cat, v)
    t = target(subject=[(m('subject', 'a'), m('subject', 'b')),
                        (m('subject', 'c'),)],
               resource=[(m('resource', 'a'),)],
               action=[(m('action', 'a'),)])
    one = Apply(F1 + 'string-equal', (
        Apply(F1 + 'string-one-and-only', (des('subject'),)), val('x')))
    rules = (Rule('urn:mc:r1', 'P', t, one), Rule('urn:mc:r2', 'D', None, None))
    p = Policy('urn:mc:p1', 'deny-overrides', t, rules)
    q = Policy('urn:mc:p2', 'permit-overrides', None,
               (Rule('urn:mc:r1', 'P', t, one),))
    return PolicySet('urn:mc:s', 'deny-overrides', t, (p, q))


def readers(ctx, job):
    L = build.lib()
    from ndg.xacml.core import (rule, target as t, condition, attributevalue,
                                match, attributedesignator, subject, policy)
    types = {'Rule': rule.Rule, 'Target': t.Target,
             'Condition': condition.Condition,
             'AttributeValue': attributevalue.AttributeValue,
             'SubjectMatch': match.SubjectMatch,
             'SubjectAttributeDesignator':
                 attributedesignator.SubjectAttributeDesignator,
             'Subject': subject.Subject, 'Policy': policy.Policy}
    o = [('add', n, x) for n in WITH for x in 'XY']
    o += [('bad', n, x) for n in WITH[:3]
          for x in ('none', 'dict', 'instance', 'value')]
    o += [('badtype', x) for x in ('none', 'text', 'dict', 'instance')]
    hs = itertools.chain(*[itertools.product(o, repeat=j)
                           for j in range(4 if ctx.thorough else 3)])
    for h in shard(hs, job):
        ctx.sample(repr(h))
        ctx.case(repr(h), reader_history, ctx, types, h)


def reader_history(ctx, types, h):
    L = build.lib()
    RF = L.ReaderFactory
    log = []
    defaults = {n: RF.getReader(c) for n, c in types.items()}
    marked = {}

    def mark(n, x):
        if (n, x) not in marked:
            orig = defaults[n]

            def call(self, obj, common, _orig=orig):
                # a policy in a set is read by processElement
                out = _orig.__call__(self, obj, common)
                log.append((n, x, out))
                return out
            marked[n, x] = type(orig.__name__, (orig,), {'__call__': call})
        return marked[n, x]
    saved = dict(RF.READER_CLASS_MAP)
    model = {}
    p = sample_set()
    data = build.policy_bytes(p)
    before = L.PolicySet.fromSource(io.BytesIO(data), RF)
    try:
        for op in h:
            ctx.step()
            if op[0] == 'add':
                err = raises(RF.addReader, types[op[1]], mark(*op[1:]))
                check(err is None, 'reader refused', None, repr(err))
                model[op[1]] = op[2]
            elif op[0] == 'bad':
                x = {'none': None, 'dict': dict, 'instance': defaults[op[1]](),
                     'value': L.valueClass(STD)}[op[2]]
                err = raises(RF.addReader, types[op[1]], x)
                check(err is not None, 'what is no reader was accepted', op)
            else:
                x = {'none': None, 'text': 'Rule', 'dict': dict,
                     'instance': L.Target()}[op[1]]
                err = raises(RF.addReader, x, defaults['Rule'])
                check(err is not None, 'reader for no element accepted', op)
            for n in WITH:
                want = marked[n, model[n]] if n in model else defaults[n]
                check(RF.getReader(types[n]) is want, 'reader of ' + n,
                      model.get(n), repr(RF.getReader(types[n])))
        del log[:]
        after = L.PolicySet.fromSource(io.BytesIO(data), RF)
        check(build.a_policy(after) == p, 'policy read', p, build.a_policy(after))
        check(build.a_policy(before) == p, 'policy read before', p,
              build.a_policy(before))
        there = parts(after)
        for n in WITH:
            for x in 'XY':
                used = sum(1 for e in log if e[:2] == (n, x))
                want = len(there[n]) if model.get(n) == x else 0
                check(used == want, '%s read by reader %s' % (n, x), want, used)
                for e in log:
                    if e[:2] == (n, x):
                        check(any(e[2] is y for y in there[n]),
                              'the object a reader made isn\'t in the policy', n)
    finally:
        for key in list(RF.READER_CLASS_MAP):
            if key not in saved:
                del RF.READER_CLASS_MAP[key]
        for key, v in saved.items():
            RF.READER_CLASS_MAP[key] = v
    log2 = len(log)
    L.PolicySet.fromSource(io.BytesIO(data), RF)
    check(len(log) == log2, 'a removed reader is used', log2, len(log))
    ctx.outcome(repr(sorted(model.items())))
    ctx.state()


# -- sizes -----------------------------------------------------------------------------
def long(ctx, job):
    """That many custom types: each has its own class and reader."""
    k = kit()
    for n in (30, 130, 300, 1100):
        for mixed in (False, True):
            ctx.case('types %d %s' % (n, mixed), crowd, ctx, k, n, mixed)


def crowd(ctx, k, n, mixed):
    """mixed: the next type is registered while the others are used."""
    serial = next(COUNT)
    tid = ['urn:mc:crowd:%d:%d' % (serial, i) for i in range(n)]
    pick = lambda i, d: NAMES[(i // d) % 2]
    kept = []

    def add(i):
        check(raises(k.Factory.addClass, tid[i], k.classes[pick(i, 1)]) is None,
              'class refused', i)
        check(raises(k.Readers.addReader, tid[i], k.readers[pick(i, 2)]) is None,
              'reader refused', i)

    def used(i):
        use(ctx, k, tid[i], 'x%d' % i, pick(i, 1), pick(i, 2), kept)
        use_request(k, tid[i], pick(i, 1))
        ctx.step()
    for i in range(n):
        add(i)
        if mixed:
            used(i)
            used(i // 2)
    for i in range(n):
        used(i)
        use(ctx, k, tid[i] + 'x', 'v', None, None, kept)
        check(k.Factory()(tid[i]) is k.classes[pick(i, 1)], 'class of type %d' % i)
    for t, c in k.std.items():
        check(k.Factory()(t) is c and k.Readers.MAP[t] is k.stdread[t],
              'class of a standard type', t)
    for v, c, x, t in kept:
        check(type(v) is k.classes[c] and v.value == x and v.dataType == t,
              'value of a policy read before changed', (c, x, t))
    ctx.state()
    ctx.outcome('%d types' % n)


def run(ctx):
    globals()[base(ctx.job)](ctx, ctx.job)
