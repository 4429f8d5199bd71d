"""Policy and policy set references."""
import http.server
import io
import itertools
import os
import shutil
import sys
import threading

from mc import build, spec
from mc.build import Node
from mc.c09 import Reader, Reject, Unspec, OLD
from mc.core import Mismatch, check
from mc.pdpcheck import base, shard
from mc.spec import *

EQ = F1 + 'string-equal'


def pol(id, eff='P', act=None):
    t = act and target(action=((simple_match('action', act),),))
    return Policy(id, ALGS[0], t, (Rule('r', eff, None, None),))


class FsReader(Reader):
    """Reference grammar that also follows references into documents.
    fs: absolute path -> Node or None (not a policy document)."""

    def __init__(self, fs=None, cwd='/'):
        Reader.__init__(self)
        self.fs, self.cwd, self.open = fs, cwd, []

    def fetch(self, ref):
        if self.fs is None:
            raise Reject('dangling reference')
        path = ref[7:] if ref.startswith('file://') else ref
        path = os.path.normpath(os.path.join(self.cwd, path))
        if path not in self.fs or self.fs[path] is None:
            raise Reject('no document for reference')
        if path in self.open:
            raise Reject('circular')
        self.open.append(path)
        self.policy_or_set(self.fs[path])
        self.open.pop()

    def policyset(self, n):
        pid, alg = self.head(n, 'Policy')
        t, ch = [], []
        for c in build_kids(n):
            if c.tag == 'Target':
                t.append(self.target(c))
            elif c.tag in ('Policy', 'PolicySet'):
                ch.append(self.policy_or_set(c))
            elif c.tag in ('PolicyIdReference', 'PolicySetIdReference'):
                ref = ''.join(c.children)
                known = self.pol if c.tag[6] == 'I' else self.sets
                if ref not in known:
                    if (c.tag[:-11], ref) in self.defined:
                        self.unspec.append('forward reference')
                        continue
                    self.fetch(ref)
                if ref not in known:
                    raise Reject('document without the policy')
                ch.append(known[ref])
            else:
                raise Reject(c.tag)
        p = PolicySet(pid, alg, t[-1] if t else None, tuple(ch))
        if pid in self.sets:
            raise Reject('duplicate policy set id')
        self.sets[pid] = p
        return p


def build_kids(n):
    return [c for c in n.children if isinstance(c, Node)]


def judge(ctx, doc, finder, source=None, fs=None, cwd='/', reqs=True):
    verdict, want = FsReader(fs, cwd).read(doc)
    L = build.lib()
    pdp = build.o_pdp(OLD)
    old = pdp.policy
    if source is None:
        source = io.BytesIO(build.to_bytes(doc))
    try:
        if finder == 'default':
            pdp = L.PDP.fromPolicySource(source, L.ReaderFactory)
        else:
            pdp.setPolicyFromSource(source, L.ReaderFactory, finder)
    except Exception as e:
        if verdict == 'ok':
            raise Mismatch('resolvable references were rejected (%s: %s)' % (
                type(e).__name__, str(e)[:300]), repr(want)[:500],
                build.to_xml(doc))
        check(pdp.policy is old, 'policy replaced by a rejected document')
        ctx.outcome(verdict + '/rejected')
        ctx.step()
        return None
    if verdict == 'reject':
        raise Mismatch('unresolvable reference accepted', want,
                       (build.to_xml(doc), repr(build.a_policy(pdp.policy))))
    ctx.outcome(verdict + '/accepted')
    if verdict == 'ok':
        got = build.a_policy(pdp.policy)
        if got != want:
            raise Mismatch('reference resolved to something else', repr(want),
                           repr(got))
        if reqs:
            for a in ('x', 'y', 'z'):
                r = request((), (), [attr('action', a)])
                d = build.decision_of(pdp.evaluate(build.o_request(r)))
                if d not in decide(want, r):
                    raise Mismatch('decision', sorted(decide(want, r)), d)
                ctx.step()
    ctx.step()
    return want


# -- references within one document ------------------------------------------------
def inline(ctx, job):
    L = build.lib()
    items = [pol('a', 'P', 'x'), pol('b', 'D', 'y'), pol('s', 'D', 'z'),
             PolicyRef('a'), PolicyRef('b'), PolicyRef('s'), PolicyRef('c'),
             PolicySetRef('s'), PolicySetRef('t'), PolicySetRef('a'),
             PolicySet('s', ALGS[1], None, (pol('c', 'P', 'y'),)),
             PolicySet('t', ALGS[2], None, (PolicyRef('a'), PolicySetRef('s'))),
             PolicySet('t', ALGS[0], None, (PolicyRef('c'),)),
             PolicySetRef('top'), PolicyRef('A'), PolicyRef('a ')]
    n = 4 if ctx.thorough else 3
    seqs = (s for k in range(n + 1) for s in itertools.product(items, repeat=k))
    for s in shard(seqs, job):
        p = PolicySet('top', ALGS[1], None, s)
        key = repr([x.id if not isinstance(x, (PolicyRef, PolicySetRef)) else
                    repr(x) for x in s])
        ctx.sample(key)
        ctx.case(str(hash_key(s)) + key, inl, ctx, p)


def hash_key(s):
    return len(repr(s))


def inl(ctx, p):
    L = build.lib()
    doc = build.policy_node(p)
    judge(ctx, doc, L.LocalPolicyFinder())
    judge(ctx, doc, L.UrlPolicyFinder('/nonexistent'), fs={}, cwd='/nonexistent')
    ctx.state()


# -- references to other documents ---------------------------------------------------
def contents(name, other):
    """Documents a referenced file may hold."""
    return [
        ('missing', None),
        ('junk', 'junk'),
        ('policy', pol(name, 'P', 'x')),
        ('otherid', pol('elsewhere', 'P', 'x')),
        ('set', PolicySet(name, ALGS[0], None, (pol('in-' + name, 'D', 'y'),))),
        ('setref', PolicySet(name, ALGS[1], None, (PolicyRef(other),
                                                  pol('in-' + name, 'D', 'z')))),
        ('setsetref', PolicySet(name, ALGS[2], None, (PolicySetRef(other),))),
        ('wrapped', PolicySet('w-' + name, ALGS[1], None, (pol(name, 'D', 'x'),))),
        ('clash', PolicySet(name, ALGS[1], None, (pol('clash', 'P', 'x'),))),
        ('self', PolicySet(name, ALGS[1], None, (PolicySetRef(name),))),
    ]


def write(d, name, c):
    """File on disk and its model."""
    path = os.path.join(d, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if c is None:
        if os.path.exists(path):
            os.unlink(path)
        return {}
    if c == 'junk':
        open(path, 'wb').write(b'<Policy')
        return {path: None}
    open(path, 'wb').write(build.policy_bytes(c))
    return {path: build.policy_node(c)}


def files(ctx, job):
    A, B = 'a.xml', 'sub/b.xml'
    refs = [PolicyRef(A), PolicySetRef(A), PolicyRef(B), PolicySetRef(B),
            pol('clash', 'P', 'z'), pol(A, 'D', 'x'), PolicyRef('clash')]
    roots = [s for k in range(1, 3 + ctx.thorough) for s in
             itertools.product(refs, repeat=k)]
    d = os.path.join(ctx.scratch, 'files')
    # circular references end in a RecursionError: make that cheap
    sys.setrecursionlimit(400)
    combos = list(itertools.product(contents(A, B), contents(B, A)))
    for (na, ca), (nb, cb) in shard(combos, job):
        fs = dict(write(d, A, ca))
        fs.update(write(d, B, cb))
        for s in roots:
            key = '%s %s %s' % (na, nb, ' '.join(
                type(x).__name__ + ':' + x.id for x in s))
            ctx.sample(key)
            ctx.case(key, fil, ctx, PolicySet('top', ALGS[1], None, s), d, fs)


def fil(ctx, p, d, fs):
    L = build.lib()
    doc = build.policy_node(p)
    judge(ctx, doc, L.UrlPolicyFinder(d), fs=fs, cwd=d)
    judge(ctx, doc, L.LocalPolicyFinder())
    path = os.path.join(d, 'top.xml')
    open(path, 'wb').write(build.to_bytes(doc))
    judge(ctx, doc, 'default', path, fs, d, False)
    ctx.state()


# -- forms of references -------------------------------------------------------------
def forms(ctx, job):
    top = os.path.join(ctx.scratch, 'forms')
    d = os.path.join(top, 'base')
    for loc in ('p.xml', 'sub/p.xml', '../p.xml', 'sub/deeper/p.xml', 'p',
                'p.policy.xml', 'sub.d/p-1_2.xml', '../other/p.xml', '.p.xml',
                '.d/.p', '..p.xml', 'sub/../p.xml', 'sub/./p.xml', '../../p.xml',
                '.../p.xml'):
        ab = os.path.normpath(os.path.join(d, loc))
        refs = {'relative': loc, 'absolute': ab, 'file absolute': 'file://' + ab,
                'file relative': 'file://' + loc}
        refs['dot'] = './' + loc
        refs['file dot'] = 'file://./' + loc
        refs['dots'] = '././' + loc
        refs['file dots'] = 'file://././' + loc
        for form, ref in sorted(refs.items()):
            for kind in ('policy', 'set'):
                for how in ('finder', 'default path', 'default file',
                            'default relative', 'other directory'):
                    key = '%s %s %s %s' % (loc, form, kind, how)
                    ctx.sample(key)
                    ctx.case(key, one_form, ctx, top, d, ab, ref, kind, how)


def one_form(ctx, top, d, ab, ref, kind, how):
    L = build.lib()
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(d + '/sub')
    os.makedirs(os.path.dirname(ab), exist_ok=True)
    tgt = pol(ref, 'D', 'x') if kind == 'policy' else PolicySet(
        ref, ALGS[0], None, (pol('inner', 'D', 'x'),))
    r = PolicyRef(ref) if kind == 'policy' else PolicySetRef(ref)
    open(ab, 'wb').write(build.policy_bytes(tgt))
    # a decoy with the same name in the working directory
    cwd = os.getcwd()
    if not ref.startswith('..') and not ref.startswith('/') and ':' not in ref:
        decoy = os.path.join(cwd, ref)
        os.makedirs(os.path.dirname(decoy), exist_ok=True)
        open(decoy, 'wb').write(build.policy_bytes(
            tgt._replace(target=target(action=((simple_match(
                'action', 'decoy'),),)))))
    doc = build.policy_node(PolicySet('top', ALGS[1], None, (
        pol('first', 'P', 'y'), r)))
    fs = {ab: build.policy_node(tgt)}
    path = os.path.join(d, 'top.xml')
    open(path, 'wb').write(build.to_bytes(doc))
    if how == 'finder':
        judge(ctx, doc, L.UrlPolicyFinder(d), fs=fs, cwd=d)
    elif how == 'default path':
        judge(ctx, doc, 'default', path, fs, d)
    elif how == 'default file':
        with open(path, 'rb') as f:
            judge(ctx, doc, 'default', f, fs, d)
    elif how == 'default relative':
        judge(ctx, doc, 'default', os.path.relpath(path), fs, d)
    else:
        os.chdir(d)
        try:
            judge(ctx, doc, 'default', 'top.xml', fs, d)
        finally:
            os.chdir(cwd)
    ctx.state()


# -- http -----------------------------------------------------------------------------
def web(ctx, job):
    served = {}

    class H(http.server.BaseHTTPRequestHandler):
        def do_GET(self):
            body = served.get(self.path)
            self.send_response(200 if body is not None else 404)
            self.end_headers()
            self.wfile.write(body or b'<Policy/>')

        def log_message(self, *a):
            pass
    srv = http.server.HTTPServer(('127.0.0.1', 0), H)
    t = threading.Thread(target=srv.serve_forever, daemon=True)
    t.start()
    try:
        u = 'http://127.0.0.1:%d/' % srv.server_port
        a, b = u + 'a', u + 'b.xml?x=1&y=2'
        for ca, cb in itertools.product(contents(a, b), contents(b, a)):
            for s in ([PolicyRef(a)], [PolicySetRef(b), PolicyRef(a)],
                      [PolicySetRef(a)], [PolicyRef(b), PolicyRef(b)]):
                ctx.case('%s %s %s' % (ca[0], cb[0], ' '.join(
                    type(x).__name__ + x.id[-7:] for x in s)), webcase, ctx,
                    served, u, {a: ca[1], b: cb[1]}, s)
    finally:
        srv.shutdown()
        srv.server_close()


class WebReader(FsReader):
    def fetch(self, ref):
        if ref not in self.fs or self.fs[ref] is None:
            raise Reject('no document')
        if ref in self.open:
            raise Reject('circular')
        self.open.append(ref)
        self.policy_or_set(self.fs[ref])
        self.open.pop()


def webcase(ctx, served, u, docs, s):
    served.clear()
    fs = {}
    for ref, c in docs.items():
        if c is None:
            continue
        served['/' + ref[len(u):]] = (b'<Policy' if c == 'junk' else
                                      build.policy_bytes(c))
        fs[ref] = None if c == 'junk' else build.policy_node(c)
    doc = build.policy_node(PolicySet('top', ALGS[1], None, tuple(s)))
    verdict, want = WebReader(fs).read(doc)
    L = build.lib()
    try:
        pdp = L.PDP.fromPolicySource(io.BytesIO(build.to_bytes(doc)),
                                     L.ReaderFactory, L.UrlPolicyFinder('/x'))
    except Exception as e:
        if verdict == 'ok':
            raise Mismatch('rejected: %r' % e, want, None)
    else:
        if verdict == 'reject':
            raise Mismatch('accepted', want, repr(build.a_policy(pdp.policy)))
        if verdict == 'ok':
            got = build.a_policy(pdp.policy)
            check(got == want, 'web reference', want, got)
    ctx.outcome(verdict)
    ctx.step()
    ctx.state()


# -- isolation --------------------------------------------------------------------------
def isolation(ctx, job):
    """Policies known to one finder are unknown to others; whatever was loaded
    (or failed to load) before."""
    docs = {
        'def': PolicySet('s', ALGS[0], None, (pol('a', 'P', 'x'), PolicySet(
            't', ALGS[0], None, ()))),
        'def2': PolicySet('s', ALGS[0], None, (pol('a', 'D', 'y'), PolicySet(
            't', ALGS[1], None, (pol('b'),)))),
        'ref': PolicySet('s', ALGS[0], None, (PolicyRef('a'),)),
        'setref': PolicySet('s', ALGS[0], None, (PolicySetRef('t'),)),
        'both': PolicySet('s', ALGS[0], None, (pol('a', 'D', 'x'), PolicySet(
            't', ALGS[2], None, ()), PolicyRef('a'), PolicySetRef('t'))),
        'bad': PolicySet('s', ALGS[0], None, (pol('a', 'P', 'x'),
                                              PolicyRef('nowhere'))),
        'policy': pol('a', 'P', 'z'),
    }
    kinds = ('local', 'url', 'default')
    steps = list(itertools.product(sorted(docs), kinds))
    for n in (1, 2, 3):
        for h in itertools.product(steps, repeat=n):
            if n == 3 and len(set(k for _, k in h)) > 1 and not ctx.thorough:
                continue
            ctx.case(repr(h), iso, ctx, [(docs[d], k) for d, k in h])


def iso(ctx, h):
    L = build.lib()
    for p, k in h:
        doc = build.policy_node(p)
        f = {'local': L.LocalPolicyFinder, 'default': lambda: 'default',
             'url': lambda: L.UrlPolicyFinder('/nonexistent')}[k]()
        judge(ctx, doc, f, reqs=False)
    ctx.state()


# -- finders supplied by the user --------------------------------------------------------
def custom(ctx, job):
    L = build.lib()
    from ndg.xacml.finder.policyfinderbase import PolicyFinderBase
    defs = {('PolicyRef', 'a'): pol('a', 'P', 'x'),
            ('PolicyRef', 'b'): pol('other', 'D', 'y'),
            ('PolicySetRef', 'a'): PolicySet('a', ALGS[0], None, (
                pol('c', 'D', 'z'),))}

    class Finder(PolicyFinderBase):
        def __init__(self):
            PolicyFinderBase.__init__(self)
            self.asked = []

        def findPolicy(self, ref, common):
            self.asked.append(('PolicyRef', ref))
            check(common.policyFinder is self, 'finder handed to the finder')
            return build.o_policy(defs[('PolicyRef', ref)])

        def findPolicySet(self, ref, common):
            self.asked.append(('PolicySetRef', ref))
            return build.o_policy(defs[('PolicySetRef', ref)])
    refs = [PolicyRef('a'), PolicyRef('b'), PolicySetRef('a'), pol('a', 'D', 'z'),
            PolicyRef('zz')]
    for k in range(4):
        for s in itertools.product(refs, repeat=k):
            ctx.case(repr(s), cust, ctx, s, defs, Finder())


def cust(ctx, s, defs, finder):
    L = build.lib()
    p = PolicySet('top', ALGS[1], None, s)
    bad = PolicyRef('zz') in s or s.count(pol('a', 'D', 'z')) > 1
    try:
        pdp = L.PDP.fromPolicySource(io.BytesIO(build.policy_bytes(p)),
                                     L.ReaderFactory, finder)
    except Exception as e:
        if not bad:
            raise Mismatch('rejected %r' % e, p, None)
        ctx.outcome('rejected')
        return
    check(not bad, 'accepted')
    want = p._replace(children=tuple(
        defs[(type(c).__name__, c.id)] if isinstance(c, (PolicyRef, PolicySetRef))
        else c for c in s))
    got = build.a_policy(pdp.policy)
    check(got == want, 'policies of a custom finder', want, got)
    asked = [(type(c).__name__, c.id) for c in s
             if isinstance(c, (PolicyRef, PolicySetRef))]
    check(finder.asked == asked, 'references asked for', asked, finder.asked)
    ctx.outcome('accepted')
    ctx.step()
    ctx.state()


# -- sizes -----------------------------------------------------------------------------
def long(ctx, job):
    """Many references, many definitions, long chains, long names."""
    d = os.path.join(ctx.scratch, 'long')
    big = (130, 300, 1100) if ctx.thorough else (130, 300)
    for n in big:
        defs = tuple(pol('p%d' % i, 'PD'[i % 2], 'xyz'[i % 3]) for i in range(n))
        sets = tuple(PolicySet('s%d' % i, ALGS[i % 3], None, (PolicyRef(
            'p%d' % (i * 7 % n)),)) for i in range(n))
        refs = tuple(PolicyRef('p%d' % (n - 1 - i)) for i in range(n))
        srefs = tuple(PolicySetRef('s%d' % i) for i in range(0, n, 3))
        ctx.case('definitions %d' % n, inl, ctx, PolicySet(
            'top', ALGS[2], None, defs + refs))
        ctx.case('sets %d' % n, inl, ctx, PolicySet(
            'top', ALGS[2], None, defs + sets + srefs))
        for miss in ('p%d' % n, 'P0', 'p0 ', 's0'):
            for at in (0, n // 2, n):
                ctx.case('missing %s %d %d' % (miss, at, n), inl, ctx, PolicySet(
                    'top', ALGS[2], None, defs + refs[:at] + (
                        PolicyRef(miss),) + refs[at:]))
        ctx.case('same reference %d' % n, inl, ctx, PolicySet(
            'top', ALGS[2], None, defs[:2] + (PolicyRef('p0'),) * n))
        fs = {}
        for i in range(n):
            fs.update(write(d, 'f%d.xml' % i, defs[i]._replace(
                id='f%d.xml' % i)))
        ctx.case('files %d' % n, fil, ctx, PolicySet('top', ALGS[2], None, tuple(
            PolicyRef('f%d.xml' % i) for i in range(n))), d, fs)
    # a chain of files
    for n in (2, 5, 12, 25):
        for end in ('policy', 'missing', 'junk'):
            fs = {}
            for i in range(n):
                fs.update(write(d, 'c%d.xml' % i, PolicySet(
                    'c%d.xml' % i, ALGS[i % 3], None, (
                        PolicySetRef('c%d.xml' % (i + 1)),))))
            fs.update(write(d, 'c%d.xml' % n, {
                'policy': PolicySet('c%d.xml' % n, ALGS[0], None, (
                    pol('leaf', 'D', 'x'),)), 'missing': None,
                'junk': 'junk'}[end]))
            ctx.case('chain %d %s' % (n, end), fil, ctx, PolicySet(
                'top', ALGS[1], None, (PolicySetRef('c0.xml'),)), d, fs)
    for n in (100, 1000, 5000):
        a, b = 'x' * n + 'a', 'x' * n + 'b'
        for s in itertools.product((pol(a, 'P', 'x'), pol(b, 'D', 'y'),
                                    PolicyRef(a), PolicyRef(b)), repeat=3):
            ctx.case('names of %d %r' % (n, [x.id[-1] + type(x).__name__
                                             for x in s]), inl, ctx,
                     PolicySet('top', ALGS[1], None, s))


def no_certificates(ctx):
    """They are read again for every file fetched and never needed."""
    for n in ('SSL_CERT_FILE', 'SSL_CERT_DIR'):
        os.environ[n] = os.path.join(ctx.scratch, 'none')


# -- names of directories ---------------------------------------------------------
BASES = {                   # name of the directory -> names it could be taken for
    'plain': (), 'a b': ('a%20b', 'a'), 'a%20b': ('a b', 'a'), 'a%41': ('aA',),
    'a%2Fb': ('a',), 'a%252F': ('a%2F', 'a'), 'a#b': ('a',), 'a?b': ('a',),
    'a;b': ('a',), 'a+b': ('a b',), 'a&b': ('a',), 'a:b': ('a',), 'a@b': ('b',),
    '[x]': ('x',), '~': (), 'a%zz': ('a', 'azz'), 'a\\b': ('b',), "a'b": (),
    'a"b': (), '\u00e9': ('e',), 'e\u0301': ('\u00e9',), 'http:': (), 'file:': (),
    '%': (), '%%41': ('%A',), '$HOME': (), '{x}': (), 'a*': ('ab',), '...': (),
    'A': ('a',), 'a.': ('a',), ' a': ('a',), 'a ': ('a',), '-a': ('a',)}


def places(ctx, job):
    """Documents below directories of any name."""
    no_certificates(ctx)
    for name in sorted(BASES):
        for ref in ('p.xml', './p.xml', 'file://p.xml', 'file://./p.xml',
                    'sub/p.xml', '../p.xml'):
            for kind in ('policy', 'set'):
                for how in ('finder', 'path', 'file', 'relative', 'inside'):
                    if how == 'relative' and name.endswith(':'):
                        continue        # reads like an URL
                    for there in (True, False):
                        key = '%s %s %s %s %s' % (name, ref, kind, how, there)
                        ctx.sample(key)
                        ctx.case(key, one_place, ctx, name, ref, kind, how,
                                 there)


def one_place(ctx, name, ref, kind, how, there):
    L = build.lib()
    top = os.path.join(ctx.scratch, 'places')
    shutil.rmtree(top, ignore_errors=True)
    fs = {}
    loc = ref[7:] if ref.startswith('file://') else ref
    for n in (name,) + BASES[name]:
        d = os.path.join(top, n, 'in')
        os.makedirs(d + '/sub')
        path = os.path.normpath(os.path.join(d, loc))
        if n == name and not there:
            continue
        tgt = pol(ref, 'D', 'x' if n == name else 'y')
        if kind == 'set':
            tgt = PolicySet(ref, ALGS[0], None, (tgt,))
        with open(path, 'wb') as f:
            f.write(build.policy_bytes(tgt))
        if n == name:
            fs[path] = build.policy_node(tgt)
    d = os.path.join(top, name, 'in')
    doc = build.policy_node(PolicySet('top', ALGS[1], None, (
        pol('first', 'P', 'y'), PolicyRef(ref) if kind == 'policy' else
        PolicySetRef(ref))))
    path = os.path.join(d, 'top.xml')
    with open(path, 'wb') as f:
        f.write(build.to_bytes(doc))
    if how == 'finder':
        judge(ctx, doc, L.UrlPolicyFinder(d), fs=fs, cwd=d, reqs=False)
    elif how == 'path':
        judge(ctx, doc, 'default', path, fs, d, False)
    elif how == 'file':
        with open(path, 'rb') as f:
            judge(ctx, doc, 'default', f, fs, d, False)
    else:
        cwd = os.getcwd()
        os.chdir(top if how == 'relative' else d)
        try:
            judge(ctx, doc, 'default', os.path.join(name, 'in', 'top.xml')
                  if how == 'relative' else 'top.xml', fs, d, False)
        finally:
            os.chdir(cwd)
    ctx.state()


# -- documents of the same name ----------------------------------------------------
def namesakes(ctx, job):
    """Files of one name in several directories, in every order of reference."""
    no_certificates(ctx)
    d = os.path.join(ctx.scratch, 'namesakes')
    refs = ['p.xml', 'a/p.xml', 'b/p.xml', 'a/b/p.xml', './p.xml', 'b/./p.xml',
            'a/../p.xml', 'p', 'a/p']
    for n in (2, 3, 4) if ctx.thorough else (2, 3):
        for seq in shard(itertools.permutations(refs, n), job):
            for kinds in itertools.product((0, 1), repeat=n):
                for nested in range(n):
                    if nested and not kinds[nested]:
                        continue
                    key = '%s %s %d' % (' '.join(seq), kinds, nested)
                    ctx.case(key, one_sake, ctx, d, seq, kinds, nested)


def one_sake(ctx, d, seq, kinds, nested):
    """The last of the references is made by the nested-th document."""
    L = build.lib()
    os.makedirs(d + '/a/b', exist_ok=True)
    os.makedirs(d + '/b', exist_ok=True)
    fs = {}
    refs = [PolicySetRef(r) if k else PolicyRef(r) for r, k in zip(seq, kinds)]
    paths = [os.path.normpath(os.path.join(d, r)) for r in seq]
    if len(set(paths)) < len(paths):
        return
    inner = kinds[nested] and nested < len(seq) - 1
    for i, r in enumerate(seq):
        p = pol(r if not kinds[i] else 'leaf%d' % i, 'PD'[i % 2], 'xyz'[i % 3])
        if kinds[i]:
            p = PolicySet(r, ALGS[i % 3], None, (p,) + (
                (refs[-1],) if inner and i == nested else ()))
        fs.update(write(d, os.path.normpath(r), p))
    p = PolicySet('top', ALGS[1], None, tuple(refs[:-1] if inner else refs))
    judge(ctx, build.policy_node(p), L.UrlPolicyFinder(d), fs=fs, cwd=d)
    ctx.state()


def run(ctx):
    globals()[base(ctx.job)](ctx, ctx.job)
