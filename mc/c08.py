"""Loading a policy document yields exactly the policy it describes."""
import io
import itertools
import os
import pathlib

from mc import build, spec
from mc.build import Node
from mc.core import Mismatch, check
from mc.pdpcheck import base, shard
from mc.spec import *

EQ = F1 + 'string-equal'
I1 = 'urn:mc:id'


# -- metadata: what abstract policies leave out --------------------------------
def meta(p):
    """Expected description / version / defaults under Style.extras."""
    d = 'http://www.w3.org/TR/1999/Rec-xpath-19991116'
    kids = ([('About ' + r.id,) for r in p.rules] if isinstance(p, Policy)
            else [meta(c) for c in p.children])
    return ('1.%d' % len(p.id), 'About ' + p.id, d, tuple(kids))


def o_meta(o):
    L = build.lib()
    if isinstance(o, L.Policy):
        d, kids = o.policyDefaults, [(r.description,) for r in o.rules]
    else:
        d, kids = o.policySetDefaults, [o_meta(c) for c in o.policies]
    return (o.version, o.description, d.xpathVersion, tuple(kids))


def o_nometa(o):
    L = build.lib()
    out = [o.description]
    if isinstance(o, L.Policy):
        out += [r.description for r in o.rules]
    else:
        for c in o.policies:
            out += o_nometa(c)
    return out


def compare(p, o, style):
    got = build.a_policy(o)
    if got != p:
        raise Mismatch('%s: loaded policy differs' % style.name, repr(p),
                       repr(got))
    if style.extras:
        m = o_meta(o)
        if m != meta(p):
            raise Mismatch('%s: description / version / defaults' % style.name,
                           meta(p), m)
    else:
        m = [x for x in o_nometa(o) if x is not None]
        check(not m, 'description from nowhere', [], m)


def load(p, style, finder=None):
    return build.x_pdp(p, style, finder).policy


def one(ctx, p, styles):
    for st in styles:
        compare(p, load(p, st), st)
        ctx.step()
    ctx.state()
    ctx.outcome(type(p).__name__)


# -- the space of policies ----------------------------------------------------
def leaves():
    yield val('v')
    yield val('w x')
    for c in SECTIONS:
        for issuer in (None, 'me'):
            for mbp in (False, True):
                yield Des(c, I1 + c[0], 'string', issuer, mbp)
    yield Des('subject', I1, 'anyURI', None, False)
    yield Sel('//a/b', 'string', False)
    yield Sel('./x', 'string', True)


def exprs():
    lv = list(leaves())
    for n in (0, 1, 2):
        for args in itertools.product(lv, repeat=n):
            yield Apply(EQ, args)
    a, b = Apply(F1 + 'string-bag', (val('q'),)), Apply(F1 + 'and', ())
    few = [lv[0], lv[3], lv[-1], a, b, Apply(F1 + 'not', (a,))]
    for n in (1, 2, 3):
        for args in itertools.product(few, repeat=n):
            yield Apply(F1 + 'and', args)
    for depth in range(1, 30):
        e = Apply(F1 + 'and', ())
        for k in range(depth):
            e = Apply(F1 + 'not', ((e,), (val('l'), e), (e, val('r')))[k % 3])
        yield e


def with_exprs(n=20):
    """Policies of n rules with one expression each."""
    buf = []
    for i, e in enumerate(exprs()):
        buf.append(Rule('r%d' % i, 'PD'[i % 2], None, e))
        if len(buf) == n:
            yield Policy('p%d' % i, ALGS[i % 3], None, tuple(buf))
            buf = []
    yield Policy('last', ALGS[0], None, tuple(buf))


def shapes():
    """Targets: per section every list of <=2 entries of <=2 matches, the other
    sections empty or minimal; every presence pattern."""
    n = itertools.count()

    def m(c, ref=None):
        i = next(n)
        return Match(EQ, val('v%d' % i), ref or Des(
            c, '%s:%d' % (I1, i), 'string', 'iss%d' % i if i % 3 == 0 else None,
            i % 2 == 0))
    sizes = [s for k in range(3) for s in itertools.product(range(3), repeat=k)]
    for c in SECTIONS:
        for s in sizes:
            for others in ((), tuple(x for x in SECTIONS if x != c)):
                kw = {c: tuple(tuple(m(c) for _ in range(e)) for e in s)}
                for o in others:
                    kw[o] = ((m(o),),)
                yield target(**kw)
    for pattern in itertools.product((0, 1, 2), repeat=4):
        yield target(**{c: tuple((m(c),) for _ in range(k))
                        for c, k in zip(SECTIONS, pattern)})
    for c in SECTIONS:
        yield target(**{c: ((m(c, Sel('//x', 'string', True)),
                             m(c, Sel('y', 'string', False))),)})


def with_targets(n=10):
    """Targets on rules, on policies and on sets."""
    ts = list(shapes())
    for i in range(0, len(ts), n):
        yield Policy('p%d' % i, ALGS[i % 3], None, tuple(
            Rule('r%d' % j, 'PD'[j % 2], t, None)
            for j, t in enumerate(ts[i:i + n])))
    for i, t in enumerate(ts):
        yield Policy('p%d' % i, ALGS[i % 3], t, ())
        if i % 2:
            yield PolicySet('s%d' % i, ALGS[i % 3], t, ())


def with_rules():
    t = target(action=((simple_match('action', 'x'),),))
    c = Apply(F1 + 'and', ())
    kinds = [(e, tt, cc) for e in 'PD' for tt in (None, t) for cc in (None, c)]
    for k in range(4):
        for ks in itertools.product(kinds, repeat=k):
            yield Policy('p', ALGS[k % 3], None, tuple(
                Rule('r%d' % i, *x) for i, x in enumerate(ks)))


def with_sets():
    t = target(subject=((simple_match('subject', 'x'),),))
    n = itertools.count()

    def tree(depth, width):
        for alg, tt in itertools.product(ALGS[:2], (None, t)):
            yield lambda: Policy('p%d' % next(n), alg, tt, (
                Rule('r', 'P', None, None),))
        if depth:
            sub = list(tree(depth - 1, width))
            for k in range(width + 1):
                for cs in itertools.product(sub, repeat=k):
                    yield lambda: PolicySet('s%d' % next(n), ALGS[2], None,
                                            tuple(c() for c in cs))
    for f in tree(1, 3):
        yield f()
    for f in itertools.islice(tree(2, 1), 0, None):
        yield f()
    for depth in range(1, 12):
        p = Policy('p', ALGS[0], None, ())
        for i in range(depth):
            p = PolicySet('d%d' % i, ALGS[i % 3], t if i % 2 else None,
                          (p, Policy('e%d' % i, ALGS[1], None, ())))
        yield p
    for k in (5, 20, 60):
        yield PolicySet('w', ALGS[1], None, tuple(
            Policy('p%d' % i, ALGS[i % 3], t if i % 2 else None, (
                Rule('r', 'PD'[i % 2], None, None),)) for i in range(k)))
        yield Policy('w', ALGS[1], None, tuple(
            Rule('r%d' % i, 'PD'[i // 3 % 2], t if i % 5 == 0 else None, None)
            for i in range(k)))


def structure(ctx, job):
    for i, p in enumerate(shard(itertools.chain(
            with_exprs(), with_targets(), with_rules(), with_sets()), job)):
        ctx.sample(repr(p)[:300])
        if ctx.thorough or len(repr(p)) < 3000:
            styles = build.STYLES
        else:
            k = i % 5
            styles = build.STYLES[k::5] + [build.PLAIN]
        ctx.case('%d %s' % (i, repr(p)[:60]), one, ctx, p, styles)


# -- texts ----------------------------------------------------------------------
TEXTS = ['a', 'A', '0', '-1', 'None', 'true', 'False', ' a', 'a ', '  a  b  ',
         '\ta', 'a\n', 'a\nb', '\n', ' ', 'a\r\nb', 'a&b', 'a<b', 'a>b', '"', "'",
         '"a\'b"', ']]>', '<!--x-->', '&amp;', '&#65;', '<a/>', '<?x y?>',
         '{urn:x}y', '{}', '%s', '%(a)s', '%', '\\', '\\d+', '$', '^a.*$', '/',
         '//a', './a', '../a', 'a/b', 'file:///x', 'http://h/p?q=1&r=2#f',
         'urn:oasis:names:tc:xacml:1.0:action:action-id', u'\xe9', u'e\u0301',
         u'\u4e2d\u6587', u'\U0001F600', u'\xa0', u'\u2028', u'\u200b', 'a' * 300,
         'x:y', 'a,b', 'a;b', '#', 'a=b', '[1]', '*', '?', '|']
XML_SPACE = ' \t\r\n'


def slots(s):
    """name -> policy with the text in one slot."""
    c = 'action'
    d = Des(c, I1, 'string', None, False)

    def pol(t=None, cond=None, pid='p', rid='r'):
        return Policy(pid, ALGS[0], t, (Rule(rid, 'P', None, cond),
                                        Rule(rid + '2', 'D', None, None)))
    yield 'policyid', pol(pid=s)
    yield 'setid', PolicySet(s, ALGS[0], None, (pol(pid='q'),))
    yield 'ruleid', pol(rid=s)
    yield 'applyvalue', pol(cond=Apply(EQ, (val(s), val(s + 'x'))))
    for cat in SECTIONS:
        dd = Des(cat, I1, 'string', None, False)
        yield 'matchvalue ' + cat, pol(target(**{cat: ((Match(EQ, val(s), dd),),)}))
        yield 'id ' + cat, pol(target(**{cat: ((Match(EQ, val('v'), dd._replace(
            id=s)),),)}), Apply(EQ, (dd._replace(id=s), dd)))
        yield 'issuer ' + cat, pol(target(**{cat: ((Match(
            EQ, val('v'), dd._replace(issuer=s)),),)}),
            Apply(EQ, (dd._replace(issuer=s), dd)))
        yield 'type ' + cat, pol(target(**{cat: ((Match(
            EQ, val('v'), dd._replace(type=s)),),)}),
            Apply(EQ, (dd._replace(type=s), dd)))
    yield 'path', pol(cond=Apply(EQ, (Sel(s, 'string', True),)))


def representable(s, st):
    try:
        s.encode(st.encoding)
    except UnicodeEncodeError:
        return False
    return True


def texts(ctx, job):
    pool = [s for s in TEXTS if s.strip(XML_SPACE) or True]
    if ctx.thorough:
        pool += [a + b for a in TEXTS[:45] for b in TEXTS[:45]]
    for s in shard(pool + [''], job):
        for name, p in slots(s):
            if not s and not name.startswith('issuer'):
                continue        # an empty issuer is one, the others are errors
            sts = [st for st in build.STYLES if representable(s, st)]
            ctx.sample('%s %r' % (name, s))
            ctx.case('%s %r' % (name, s), one_text, ctx, p, sts)
        if s:
            ctx.case('description %r' % s, described, ctx, s)


def one_text(ctx, p, sts):
    for st in sts:
        if st.extras:
            continue            # ids inside descriptions are stripped
        compare(p, load(p, st), st)
        ctx.step()
    ctx.state()


def described(ctx, s):
    """Descriptions come without surrounding white space."""
    L = build.lib()
    for st in build.STYLES:
        if not representable(s, st):
            continue
        rule = build.Node('Rule', [('RuleId', 'r'), ('Effect', 'Permit')],
                          build.Node('Description', [], s))
        pol = build.policy_node(Policy('p', ALGS[0], None, ()))
        pol.add(build.Node('Description', [], s), rule)
        ps = build.policy_node(PolicySet('s', ALGS[0], None, ()))
        ps.add(build.Node('Description', [], s), pol)
        o = L.PDP.fromPolicySource(io.BytesIO(build.to_bytes(ps, st)),
                                   L.ReaderFactory, L.LocalPolicyFinder()).policy
        got = (o.description, o.policies[0].description,
               o.policies[0].rules[0].description)
        for g in got:
            check((g or '').strip() == s.strip(), 'description', s.strip(), g)
        ctx.step()
    ctx.state()


# -- sources and loaders ----------------------------------------------------------
def sources(data, path):
    L = build.lib()
    with open(path, 'wb') as f:
        f.write(data)
    yield 'path', lambda: path
    yield 'relative', lambda: os.path.relpath(path)
    yield 'dotted', lambda: os.path.join('.', os.path.relpath(path))
    yield 'pathlib', lambda: pathlib.Path(path)
    yield 'file', lambda: open(path, 'rb')
    yield 'unbuffered', lambda: open(path, 'rb', 0)
    yield 'bytesio', lambda: io.BytesIO(data)
    yield 'element', lambda: L.ET.fromstring(data)
    yield 'parsed', lambda: L.ET.parse(path).getroot()

    def chunks():
        class Slow(object):
            def __init__(self):
                self.d = data

            def read(self, n=-1):
                x, self.d = self.d[:3], self.d[3:]
                return x
        return Slow()
    yield 'slow', chunks


def loaders(p, d):
    L = build.lib()
    U = L.UrlPolicyFinder
    yield 'pdp', lambda s: L.PDP.fromPolicySource(s, L.ReaderFactory).policy
    yield 'pdp local', lambda s: L.PDP.fromPolicySource(
        s, L.ReaderFactory, L.LocalPolicyFinder()).policy
    yield 'pdp url', lambda s: L.PDP.fromPolicySource(
        s, L.ReaderFactory, U(d)).policy

    def setp(s):
        pdp = L.PDP(build.o_policy(Policy('old', ALGS[0], None, ())))
        pdp.setPolicyFromSource(s, L.ReaderFactory, L.LocalPolicyFinder())
        return pdp.policy
    yield 'set', setp
    yield 'base', lambda s: L.PolicyBase.fromSource(s, L.ReaderFactory,
                                                    L.LocalPolicyFinder())
    if isinstance(p, Policy):
        yield 'policy', lambda s: L.Policy.fromSource(s, L.ReaderFactory)
    else:
        yield 'policyset', lambda s: L.PolicySet.fromSource(s, L.ReaderFactory)


def corpus():
    t = target(subject=((simple_match('subject', u'\xe9 & <x>'),),),
               environment=((simple_match('environment', 'now'),),))
    c = Apply(F1 + 'not', (Apply(EQ, (val('v'), Apply(
        F1 + 'string-one-and-only', (Des('action', I1, 'string', 'i', True),)))),))
    p1 = Policy('p1', ALGS[1], t, (Rule('r1', 'D', t, c), Rule('r2', 'P', None, c)))
    p2 = Policy('p2', ALGS[2], None, (Rule('r1', 'P', None, None),))
    s1 = PolicySet('s1', ALGS[0], t, (p2, p1))
    return [p1, p2, s1, PolicySet('s2', ALGS[2], None, (
        PolicySet('s3', ALGS[1], t, (p2._replace(id='p4'),)), s1, Policy('p3', ALGS[0], t, ())))
        ]


def src(ctx, job):
    d = ctx.scratch
    n = 0
    for p in corpus()[:3] + [PolicySet('s9', ALGS[1], None, (
            PolicySet('s8', ALGS[1], None, ()), Policy('p9', ALGS[0], None, ())))]:
        for st in build.STYLES:
            if not representable(u'\xe9', st):
                continue
            n += 1
            data = build.policy_bytes(p, st)
            for sname, mk in sources(data, os.path.join(d, 'pol%d.xml' % n)):
                for lname, ld in loaders(p, d):
                    key = '%s %s %s %s' % (p.id, st.name, sname, lname)
                    ctx.sample(key)
                    ctx.case(key, source, ctx, p, st, mk, ld)


def source(ctx, p, st, mk, ld):
    s = mk()
    try:
        compare(p, ld(s), st)
        # an element handed in is the caller's
        if hasattr(s, 'tag'):
            compare(p, ld(s), st)
    finally:
        if hasattr(s, 'close'):
            s.close()
    ctx.step()
    ctx.state()


def pairs(ctx, job):
    """Loading one document leaves the objects loaded from another alone."""
    pols = corpus() + [Policy('p1', ALGS[0], None, ())]
    for i, j in itertools.product(range(len(pols)), repeat=2):
        ctx.case('%d then %d' % (i, j), pair, ctx, pols[i], pols[j])


def pair(ctx, p, q):
    L = build.lib()
    a = load(p, build.STYLES[3])
    b = load(q, build.STYLES[1])
    compare(p, a, build.PLAIN)
    compare(q, b, build.PLAIN)
    # objects are not shared
    if isinstance(q, Policy) and q.rules:
        b.rules[0].effect = L.Effect('Deny' if q.rules[0].effect == 'P'
                                     else 'Permit')
        del b.rules[1:]
    elif isinstance(q, PolicySet):
        del b.policies[:]
    compare(p, a, build.PLAIN)
    ctx.step()
    ctx.state()


def bools(ctx, job):
    """Spellings of MustBePresent."""
    for cat in SECTIONS + ('selector',):
        for txt, want in (('true', True), ('false', False), ('1', True),
                          ('0', False), (' true', True), ('true ', True),
                          ('\n 1\t', True), (' false ', False), (' 0', False)):
            ctx.case('%s %s' % (cat, txt), mbp, ctx, cat, txt, want)


def mbp(ctx, cat, txt, want):
    L = build.lib()
    ref = (Sel('//x', 'string', False) if cat == 'selector' else
           Des(cat, I1, 'string', None, False))
    sec = 'subject' if cat == 'selector' else cat
    p = Policy('p', ALGS[0], target(**{sec: ((Match(EQ, val('v'), ref),),)}), (
        Rule('r', 'P', None, Apply(EQ, (ref, ref))),))
    n = build.policy_node(p)
    for _, x in n.walk():
        if x.tag.endswith('Designator') or x.tag == 'AttributeSelector':
            x.attrs.append(('MustBePresent', txt))
    o = L.PDP.fromPolicySource(io.BytesIO(build.to_bytes(n)), L.ReaderFactory,
                               L.LocalPolicyFinder()).policy
    r = ref._replace(mbp=want)
    want = p._replace(target=target(**{sec: ((Match(EQ, val('v'), r),),)}),
                      rules=(Rule('r', 'P', None, Apply(EQ, (r, r))),))
    compare(want, o, build.PLAIN)
    ctx.step()
    ctx.state()


# -- sizes -----------------------------------------------------------------------
def long_text(n, k=0):
    """n characters, different everywhere."""
    return ''.join('%x.' % (i + k) for i in range(n // 2 + 1))[:n]


def sizes(thorough):
    return (130, 300, 1100) + (2100, 4200) * thorough


def large(n):
    """Documents with n of everything that can be repeated."""
    d = Des('action', I1, 'string', None, False)
    one = Apply(F1 + 'string-one-and-only', (d,))

    def pol(i, cond=None, t=None):
        return Policy('p%d' % i, ALGS[i % 3], t, (
            Rule('r%d' % i, 'PD'[i % 2], None, cond),))
    yield 'rules', Policy('p', ALGS[1], None, tuple(
        Rule('r%d' % i, 'PD'[i % 3 % 2], None, None) for i in range(n)))
    yield 'rules with conditions', Policy('p', ALGS[1], None, tuple(
        Rule('r%d' % i, 'PD'[i % 3 % 2], None, Apply(EQ, (val('v%d' % i), one)))
        for i in range(n)))
    yield 'policies', PolicySet('s', ALGS[2], None, tuple(
        pol(i) for i in range(n)))
    yield 'sets', PolicySet('s', ALGS[2], None, tuple(
        PolicySet('s%d' % i, ALGS[i % 3], None, ()) for i in range(n)))
    for cat in SECTIONS:
        ms = tuple(simple_match(cat, 'v%d' % i) for i in range(n))
        yield cat + ' matches', pol(0, t=target(**{cat: (ms,)}))
        yield cat + ' entries', pol(0, t=target(**{
            cat: tuple((m,) for m in ms)}))
    for fn in ('and', 'string-bag'):
        yield fn, pol(0, Apply(F1 + fn, tuple(
            Apply(EQ, (val('v%d' % i), one)) if fn == 'and' else val('v%d' % i)
            for i in range(n))))
    yield 'concatenate', pol(0, Apply(F2 + 'string-concatenate', tuple(
        val('v%d' % i) for i in range(n))))


def deep(n):
    x = Apply(EQ, (val('a'), val('b')))
    for i in range(n):
        x = Apply(F1 + 'not', (x,)) if i % 3 else Apply(F1 + 'and', (
            Apply(EQ, (val('%d' % i), val('b'))), x))
    yield 'condition', Policy('p', ALGS[0], None, (Rule('r', 'P', None, x),))
    p = Policy('p', ALGS[0], None, (Rule('r', 'P', None, None),))
    for i in range(n):
        p = PolicySet('s%d' % i, ALGS[i % 3], None, (p,))
    yield 'sets', p


def long(ctx, job):
    """Large documents, deep ones, and ones with long texts."""
    todo = [('%s %d' % (name, n), p, k) for n in sizes(ctx.thorough)
            for k, (name, p) in enumerate(large(n))]
    todo += [('deep %s %d' % (name, n), p, n) for n in (15, 25, 40, 60)
             for name, p in deep(n)]
    for key, p, k in shard(todo, job):
        ctx.case(key, one, ctx, p, [build.PLAIN, build.STYLES[1 + k % 14]])
    for n in (1000, 1025, 4097, 8193, 32769, 65537) + (
            262145,) * ctx.thorough:
        for name, p in shard(slots(long_text(n)), job):
            ctx.case('%s of %d' % (name, n), one_text, ctx, p,
                     [build.PLAIN, build.STYLES[1 + n % 14]])


# -- order of the parts ------------------------------------------------------------
SINGLE = ('Description', 'PolicyDefaults', 'PolicySetDefaults', 'Target',
          'Condition', 'Subjects', 'Resources', 'Actions', 'Environments')


def orders(n, twice):
    """Documents with one or two parts of an element elsewhere in it. The
    operands of a match are told apart by what they are, too."""
    for path, x in n.walk():
        k = len(x.children)
        if k < 2:
            continue
        for i, c in enumerate(x.children):
            if not isinstance(c, Node) or not (
                    c.tag in SINGLE or x.tag.endswith('Match')):
                continue
            for j in range(k):
                if i == j:
                    continue
                d = n.copy()
                y = d.at(path)
                y.children.insert(j, y.children.pop(i))
                yield d
                if twice:
                    for e in orders(d, False):
                        yield e


def order(ctx, job):
    docs = corpus() + list(itertools.islice(with_rules(), 0, None, 97)) + list(
        itertools.islice(with_targets(2), 0, None, 31))
    docs = [p for p in docs if len(repr(p)) < 2500]
    for extras in (False, True):
        for k, p in enumerate(docs):
            n = build.policy_node(p, extras)
            ds = orders(n, ctx.thorough or len(repr(p)) < 500)
            for i, d in enumerate(shard(ds, job)):
                ctx.case('%d %s %d' % (k, extras, i), reordered, ctx, p, d,
                         extras)


def reordered(ctx, p, d, extras):
    """Read with the same meaning, or not at all (the schema has an order)."""
    L = build.lib()
    ctx.step()
    ctx.state()
    try:
        o = L.PDP.fromPolicySource(
            io.BytesIO(build.to_bytes(d, build.PLAIN)), L.ReaderFactory,
            L.LocalPolicyFinder()).policy
    except Exception:
        ctx.outcome('reordered: refused')
        return
    ctx.outcome('reordered: read')
    compare(p, o, build.STYLES[[s.extras for s in build.STYLES].index(True)]
            if extras else build.PLAIN)


def run(ctx):
    globals()[base(ctx.job)](ctx, ctx.job)
