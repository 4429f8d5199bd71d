"""Features used together: a request document is answered by the response
document the policies define, wherever policies and values come from."""
import io
import itertools
import os

from mc import build, custom, spec
from mc.core import Mismatch, check
from mc.pdpcheck import base, shard
from mc.spec import *

CT = 'urn:mc:type:mark'
HIT, MISS = 'hit', 'other'
EQ, RE, SOME, ONE, BAG = (F1 + 'string-equal', F1 + 'string-regexp-match',
                          F1 + 'string-at-least-one-member-of',
                          F1 + 'string-one-and-only', F1 + 'string-bag')
STY = [build.STYLES[i] for i in (0, 1, 3, 4, 5, 6, 7, 9, 12, 14)]

# name -> (what is compared, section of the match)
SOURCES = {
    'subject': (Des('subject', 'urn:mc:s', 'string', None, False), 'subject'),
    'needed': (Des('subject', 'urn:mc:n', 'string', 'urn:mc:issuer', True),
               'subject'),
    'pip': (Des('subject', 'urn:mc:pip', 'string', None, False), 'subject'),
    'resource': (Des('resource', 'urn:mc:r', 'string', None, False), 'resource'),
    'uri': (Des('resource', 'urn:mc:u', 'anyURI', None, False), 'resource'),
    'content': (Sel('.//{%s}mark' % build.CONTEXT_NS, 'string', False),
                'resource'),
    'link': (Sel('.//{%s}mark' % build.CONTEXT_NS, 'anyURI', False), 'resource'),
    'anyone': (Des('subject', 'urn:mc:n', 'string', None, False), 'subject'),
    'must': (Sel('.//{%s}ResourceContent/{%s}must' % (
        build.CONTEXT_NS, build.CONTEXT_NS), 'string', True), 'environment'),
    'action': (Des('action', 'urn:mc:a', 'string', None, False), 'action'),
    'mark': (Des('action', 'urn:mc:m', CT, None, False), 'action'),
    'environment': (Des('environment', 'urn:mc:e', 'string', None, False),
                    'environment'),
}
# sources that read what another reads, differently
SAME = {'link': 'content', 'anyone': 'needed'}
STATES = ('hit', 'miss', 'none', 'both')
TEXTS = {'hit': (HIT,), 'miss': (MISS,), 'none': (), 'both': (MISS, HIT)}
PLACES = ('set', 'policy', 'rule', 'cond')
FORMS = {'target': ('equal', 'pattern'), 'cond': ('some', 'one', 'not')}


def pattern(a, b):
    """The application's own: every value starts with the pattern."""
    return b.value.startswith(a.value[:2])


def prepare(ctx):
    # certificates are read again for every file fetched and never needed
    for n in ('SSL_CERT_FILE', 'SSL_CERT_DIR'):
        os.environ[n] = os.path.join(ctx.scratch, 'none')
    L = build.lib()
    from ndg.xacml.core.attributevalue import (AttributeValue,
                                               AttributeValueClassFactory)
    from ndg.xacml.parsers.etree import getElementText
    from ndg.xacml.parsers.etree.attributevaluereader import (
        DataTypeReaderClassFactory, ETreeDataTypeReaderBase)

    class Mark(AttributeValue):
        TYPE = str
        IDENTIFIER = CT

    class MarkReader(ETreeDataTypeReaderBase):
        @classmethod
        def parse(cls, elem, attributeValue):
            attributeValue.value = getElementText(elem).strip().lower()
    AttributeValueClassFactory.addClass(CT, Mark)
    DataTypeReaderClassFactory.addReader(CT, MarkReader)
    assert L.valueClass(CT) is not None

    def same(a, b):
        return a.value == b.value

    def some(v, bag):
        return any(x.value == v.value for x in bag)

    def mtyped(f):
        def m(a, b):
            if isinstance(b, spec.BagV):
                return any(x == a.value for x in b.items)
            return f(a, b)
        return m
    custom.register('same', same, mtyped(same))
    custom.register('has', some, mtyped(same))
    custom.register('starts', pattern, mtyped(pattern))


def literal(src):
    ref = SOURCES[src][0]
    return Val(ref.type, HIT)


def match_of(src, form):
    ref = SOURCES[src][0]
    if src == 'mark':
        fn = custom.NS + ('same' if form == 'equal' else 'starts')
    elif ref.type == 'anyURI':
        fn = F1 + 'anyURI-equal' if form == 'equal' else \
            F2 + 'anyURI-regexp-match'
    else:
        fn = EQ if form == 'equal' else RE
    v = literal(src)
    if form == 'pattern' and src != 'mark':
        v = v._replace(value='h[aeiou]t$')
    return Match(fn, v, ref)


def cond_of(src, form):
    ref = SOURCES[src][0]
    v = literal(src)
    if src == 'mark':
        e = Apply(custom.NS + 'has', (v, ref))
    elif form == 'one':
        e = Apply(F1 + ref.type + '-equal',
                  (v, Apply(F1 + ref.type + '-one-and-only', (ref,))))
    else:
        e = Apply(F1 + ref.type + '-at-least-one-member-of', (
            Apply(F1 + ref.type + '-bag', (Val(ref.type, 'x'), v)), ref))
    return Apply(F1 + 'not', (e,)) if form == 'not' else e


def features():
    for s in sorted(SOURCES):
        for pl in PLACES:
            for f in FORMS['cond' if pl == 'cond' else 'target']:
                yield s, pl, f


def as_target(fs, how):
    """Every feature in one target: matches of one entry where the section is
    the same (how 0) or two entries."""
    if not fs:
        return None
    secs = {c: [] for c in SECTIONS}
    for s, _, f in fs:
        c = SOURCES[s][1]
        if secs[c] and not how:
            secs[c][0] = secs[c][0] + (match_of(s, f),)
        else:
            secs[c].append((match_of(s, f),))
    return target(**{c: tuple(v) for c, v in secs.items()})


def as_cond(fs):
    es = [cond_of(s, f) for s, _, f in fs]
    return None if not es else es[0] if len(es) == 1 else Apply(F1 + 'and',
                                                                tuple(es))


def program(fs, arrangement, k, names):
    """A policy set of two policies with the features in it."""
    ralg, palg = ALGS[k % 3], ALGS[k // 3 % 3]
    e1, e2 = ('P', 'D') if k // 9 % 2 == 0 else ('D', 'P')
    at = [[f for f in fs if f[1] == pl] for pl in PLACES]
    first, second = (fs[:1], fs[1:]) if arrangement else (fs, ())
    how = k % 2

    def only(g, pl):
        return [f for f in g if f[1] == pl]
    rule = lambda i, e, g: Rule(i, e, as_target(only(g, 'rule'), how),
                                as_cond(only(g, 'cond')))
    st = as_target(at[0], how)
    if arrangement == 2:            # the second feature in the second policy
        p1 = Policy(names[0], ralg, as_target(only(first, 'policy'), how),
                    (rule('r1', e1, first),))
        p2 = Policy(names[1], ralg, as_target(only(second, 'policy'), how),
                    (rule('r2', e2, second),))
    else:                           # in the second rule, or in the same place
        p1 = Policy(names[0], ralg, as_target(at[1], how), (
            rule('r1', e1, first),) + ((rule('r2', e2, second),) if second
                                       else ()))
        p2 = Policy(names[1], ralg, target(action=((simple_match(
            'action', 'read'),),)), (Rule('r3', e2, None, None),))
    return PolicySet(names[2], palg, st, (p1, p2))


# -- where the policies are ---------------------------------------------------------
ROUTES = ('inline', 'nested', 'identifiers', 'files', 'set file', 'set by name')
NEVER = target(action=((simple_match('action', 'never'),),))


def load(route, prog, k, d, nopol=False):
    """(decision point, policies as they should have been read)"""
    L = build.lib()
    st = STY[k % len(STY)]
    p1, p2 = prog.children
    files = {}
    if route == 'inline':
        doc = want = prog
    elif route == 'nested':
        doc = want = PolicySet('outer', ALGS[k % 3], None, (
            PolicySet('inner', prog.alg, prog.target, (
                PolicySet('w1', ALGS[2], None, (p1,)), p2)),))
    elif route == 'identifiers':
        lib = PolicySet('library', ALGS[2], NEVER, (p2, p1))
        doc = PolicySet('outer', ALGS[2], None, (
            lib, prog._replace(children=(PolicyRef(p1.id), PolicyRef(p2.id)))))
        want = doc._replace(children=(lib, prog))
    elif route == 'files':
        files = {p1.id: p1, p2.id: p2}
        doc = prog._replace(children=(PolicyRef(p1.id), PolicyRef(p2.id)))
        want = prog
    elif route == 'set file':
        files = {p1.id: p1, p2.id: p2, prog.id: prog._replace(
            children=(PolicyRef(p1.id), PolicyRef(p2.id)))}
        doc = PolicySet('outer', ALGS[k % 3], None, (PolicySetRef(prog.id),))
        want = doc._replace(children=(prog,))
    else:
        files = {p2.id: p2}
        lib = PolicySet('library', ALGS[2], NEVER, (prog._replace(
            children=(p1, PolicyRef(p2.id))),))
        doc = PolicySet('outer', ALGS[2], None, (lib, PolicySetRef(prog.id)))
        want = doc._replace(children=(lib._replace(children=(prog,)), prog))
    for n, p in files.items():
        path = os.path.join(d, n)
        if not os.path.isdir(os.path.dirname(path)):
            os.makedirs(os.path.dirname(path))
        with open(path, 'wb') as f:
            f.write(build.policy_bytes(p, STY[(k + len(n)) % len(STY)]))
    top = os.path.join(d, 'top.xml')
    with open(top, 'wb') as f:
        f.write(build.policy_bytes(doc, st))
    if k % 3 == 0:
        pdp = L.PDP.fromPolicySource(top, L.ReaderFactory)
    elif k % 3 == 1:
        with open(top, 'rb') as f:
            pdp = L.PDP.fromPolicySource(f, L.ReaderFactory)
    else:
        with open(top, 'rb') as f:
            src = io.BytesIO(f.read())
        pdp = L.PDP.fromPolicySource(src, L.ReaderFactory,
                                     L.UrlPolicyFinder(d))
    return pdp, want


# -- the application -----------------------------------------------------------------
def handler(pdp):
    """Context handler: request document in, response document out."""
    L = build.lib()

    class Handler(L.CtxHandlerBase):
        known = ()

        def handlePEPRequest(self, data):
            r = L.RequestElementTree.fromXML(L.ET.fromstring(data))
            r.ctxHandler = self
            r.attributeSelector = L.EtreeXPathSelector(r.elem)
            self.decided = self.pdp.evaluate(r)
            return L.ET.tostring(L.ResponseElementTree.toXML(self.decided))

        def pipQuery(self, request, designator):
            if designator.attributeId != 'urn:mc:pip':
                return []
            return [build.o_value(Val('string', v)) for v in self.known]
    h = Handler()
    h.pdp = pdp
    return h


def request_with(state):
    """(request, what the information point knows)"""
    at = {c: [] for c in SECTIONS}
    marks, pip = [], ()
    for s, v in sorted(state.items()):
        ref = SOURCES[s][0]
        texts = TEXTS[v]
        if s == 'pip':
            pip = texts
        elif isinstance(ref, Sel):
            tag = 'mark' if s == 'content' else 'must'
            marks += [build.Node(tag, [], t) for t in texts]
        elif texts:
            at[ref.cat].append(Attr(ref.id, ref.type, ref.issuer, texts))
            # same name, other type or issuer: not what is asked for
            at[ref.cat].append(
                Attr(ref.id, 'anyURI' if ref.type == 'string' else 'string',
                     None, (HIT,)) if ref.issuer is None else
                Attr(ref.id, ref.type, 'urn:mc:nobody', (HIT,)))
    at['action'].append(attr('action', 'read'))
    content = build.Node('ResourceContent', [], *marks) if marks else None
    return Request(((ACCESS_SUBJECT, (attr('subject', 'me'),)  +
                     tuple(at['subject'])),),
                   ((content, (attr('resource', 'r'),) + tuple(at['resource'])),),
                   tuple(at['action']), tuple(at['environment'])), pip


def selected(state):
    def select(path):
        for s in state:
            if SOURCES[s][0] and SOURCES[s][0][0] == path:
                return TEXTS[state[s]]
        return ()
    return select


def one(ctx, fs, arrangement, k, route, d):
    L = build.lib()
    names = (('p1', 'p2', 'top') if route in ('inline', 'nested', 'identifiers')
             else ('p1.xml', 'sub/p2.xml', 'deep/er/s.xml'))
    prog = program(fs, arrangement, k, names)
    pdp, want = load(route, prog, k, d)
    got = build.a_policy(pdp.policy)
    check(got == want, 'policies read (%s)' % route, repr(want), repr(got))
    h = handler(pdp)
    sources = sorted({SAME.get(f[0], f[0]) for f in fs})
    for j, vs in enumerate(itertools.product(STATES, repeat=len(sources))):
        state = dict(zip(sources, vs))
        req, pip = request_with(state)
        h.known = pip
        data = build.request_bytes(req, STY[(k + j) % len(STY)])
        answer = h.handlePEPRequest(data)
        back = L.ResponseElementTree.fromXML(L.ET.fromstring(answer))
        dec = build.decision_of(back)
        told = build.decision_of(h.decided)
        check(dec == told, 'decision written', told, dec)
        env = Env(req, lambda des: pip if des.id == 'urn:mc:pip' else (),
                  selected(state))
        allowed = spec.decide(want, env)
        if dec not in allowed:
            raise Mismatch('answer to %r from %r (%s)' % (state, prog, route),
                           sorted(allowed), dec)
        ctx.outcome(dec)
        ctx.step()
    ctx.state()


def singles(ctx, job):
    prepare(ctx)
    d = ctx.scratch
    fs = list(features())
    todo = itertools.product(fs, ROUTES, range(18))
    for i, (f, route, k) in enumerate(shard(todo, job)):
        key = '%s %s %d' % (f, route, k)
        ctx.sample(key)
        ctx.case(key, one, ctx, (f,), 0, k, route, d)


def pairs(ctx, job):
    prepare(ctx)
    d = ctx.scratch
    fs = list(features())
    todo = ((i, a, b, arr) for i, ((a, b), arr) in enumerate(
        itertools.product(itertools.product(fs, fs), range(3))))
    routes = len(ROUTES)
    for i, a, b, arr in shard(todo, job):
        if not ctx.thorough and arr == i // 3 % 3:
            continue
        ks = range(0, 18, 4) if ctx.thorough else [(7 * i + i // 18) % 18]
        for k in ks:
            for route in (ROUTES if ctx.thorough else
                          [ROUTES[(i + i // 6) % routes]]):
                key = '%s %s %d %d %s' % (a, b, arr, k, route)
                ctx.sample(key)
                ctx.case(key, one, ctx, (a, b), arr, k, route, d)


def run(ctx):
    dict(singles=singles, pairs=pairs)[base(ctx.job)](ctx, ctx.job)
