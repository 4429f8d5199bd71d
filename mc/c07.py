"""Decisions depend only on the current policy and request: evaluation is free
of side effects and of memory."""
import itertools
import logging

from mc import build, spec
from mc.core import Mismatch, check
from mc.pdpcheck import ROOT, base, shard
from mc.spec import *

I1 = 'urn:mc:id1'
EQ = F1 + 'string-equal'
ONE = F1 + 'string-one-and-only'
RE1 = F1 + 'string-regexp-match'
RE2 = F2 + 'anyURI-regexp-match'


def cond(cat, v, fn=EQ, type='string', issuer=None):
    return Apply(fn, (val(v, type), Apply(
        F1 + type + '-one-and-only',
        (Des(cat, I1, type, issuer, False),))))


def tmatch(cat, v, fn=EQ, type='string', issuer=None, mbp=False):
    return target(**{cat: [(Match(fn, val(v, type),
                                  Des(cat, I1, type, issuer, mbp)),)]})


def policies():
    """Deliberately confusable: equal ids, equal attribute ids, equal
    patterns, different meaning."""
    R = Rule
    return [
        Policy('p', 'deny-overrides', None, (
            R('r', 'P', None, cond('action', 'ab', RE1)),)),
        Policy('p', 'deny-overrides', None, (
            R('r', 'P', None, cond('subject', 'ab', RE2, 'anyURI')),)),
        Policy('p', 'permit-overrides', tmatch('subject', 'ab'), (
            R('r', 'D', None, None), R('s', 'P', tmatch('action', 'a.', RE1),
                                       None))),
        Policy('p', 'first-applicable', None, (
            R('r', 'D', tmatch('action', 'abc'), None),
            R('s', 'P', tmatch('subject', 'ab', issuer='A'), None),
            R('t', 'D', None, cond('action', 'ab')))),
        PolicySet('p', 'permit-overrides', None, (
            Policy('p', 'deny-overrides', tmatch('action', 'ab', mbp=True), (
                R('r', 'D', None, None),)),
            Policy('q', 'deny-overrides', None, (
                R('r', 'P', None, cond('subject', 'ab')),)))),
    ]


def requests():
    def rq(sub, act):
        return request(sub, [attr('resource', 'x')], act)
    S = lambda v, t='string', i=None: Attr(I1, t, i, (v,))
    return [rq([S('ab')], [S('ab')]),
            rq([S('ab', 'anyURI')], [S('abc')]),
            rq([S('abc', 'string', 'A')], []),
            rq([S('ab', 'string', 'A'), S('x', 'anyURI')], [S('b')])]


class World(object):
    def __init__(self, pols, reqs, mode):
        L = build.lib()
        self.mode = mode
        self.ap, self.ar = list(pols), list(reqs)
        self.pdp = [build.o_pdp(p) for p in pols]
        self.req = [build.o_request(r) for r in reqs]
        self.responses = []
        self.levels = itertools.cycle((logging.DEBUG, logging.CRITICAL))

    def evaluate(self, i, j):
        resp = self.pdp[i].evaluate(self.req[j])
        got = build.decision_of(resp)
        want = decide(self.ap[i], self.ar[j])
        if got not in want:
            raise Mismatch('policy %d request %d: %r on %r' % (
                i, j, self.ap[i], self.ar[j]), sorted(want), got)
        self.responses.append((resp, got))
        return got

    def apply(self, op):
        L = build.lib()
        k = op[0]
        if k == 'eval':
            self.evaluate(op[1], op[2])
        elif k == 'reload':          # a new PDP from text in place of the old
            self.pdp[op[1]] = build.x_pdp(self.ap[op[1]])
        elif k == 'swap':            # policy of the PDP replaced
            i, j = op[1:]
            self.ap[i], self.ap[j] = self.ap[j], self.ap[i]
            a, b = self.pdp[i], self.pdp[j]
            a.policy, b.policy = b.policy, a.policy
        elif k == 'rerequest':       # equal request at a possibly reused address
            self.req[op[1]] = None
            self.req[op[1]] = build.o_request(self.ar[op[1]])
        elif k == 'swapreq':
            i, j = op[1:]
            self.ar[i], self.ar[j] = self.ar[j], self.ar[i]
            self.req[i] = self.req[j] = None
            self.req[i] = build.o_request(self.ar[i])
            self.req[j] = build.o_request(self.ar[j])
        elif k == 'value':           # request changed in place
            self.change(op[1], op[2])
        elif k == 'flip':            # rule effect / target / algorithm changed
            self.flip(op[1])
        elif k == 'rules':           # rules reversed in place
            p = self.ap[op[1]]
            o = self.pdp[op[1]].policy
            if isinstance(p, Policy):
                self.ap[op[1]] = p._replace(rules=p.rules[::-1])
                o.rules.reverse()
            else:
                self.ap[op[1]] = p._replace(children=p.children[::-1])
                o.policies.reverse()
        elif k == 'spoil':           # caller scribbles over the last response
            if self.responses:
                r = self.responses.pop()[0]
                r.results[0].decision = L.Decision.PERMIT
                r.results[0].resourceId = 'spoilt'
                r.results.append(L.Result.createInitialised(
                    decision=L.Decision.DENY))
        elif k == 'clear':
            if self.responses:
                del self.responses.pop()[0].results[:]
        elif k == 'log':
            ROOT.setLevel(next(self.levels))

    def change(self, j, v):
        ao = [a for a in self.req[j].action.attributes]
        act = list(self.ar[j].action)
        if v is None:
            del self.req[j].action.attributes[:]
            act = []
        elif not ao:
            a = Attr(I1, 'string', None, (v,))
            self.req[j].action.attributes.append(build.o_attr(a))
            act.append(a)
        else:
            ao[0].attributeValues[0].value = v
            act[0] = act[0]._replace(values=(v,))
        self.ar[j] = self.ar[j]._replace(action=tuple(act))

    def flip(self, i):
        p, o = self.ap[i], self.pdp[i].policy
        if isinstance(p, Policy):
            alg = ALGS[(ALGS.index(p.alg) + 1) % 3]
            r0 = p.rules[0]
            eff = 'D' if r0.effect == 'P' else 'P'
            self.ap[i] = p._replace(alg=alg, rules=(r0._replace(effect=eff),) +
                                    p.rules[1:])
            o.ruleCombiningAlgId = RULE_ALG + alg
            o.rules[0].effect = build.lib().Effect(DECISION[eff])
        else:
            alg = ALGS[(ALGS.index(p.alg) + 1) % 3]
            self.ap[i] = p._replace(alg=alg)
            o.policyCombiningAlgId = POLICY_ALG + alg

    def verify(self):
        """All decisions, and nothing changed under the caller's feet."""
        L = build.lib()
        for i in range(len(self.ap)):
            for j in range(len(self.ar)):
                self.evaluate(i, j)
        for resp, d in self.responses:
            got = build.decision_of(resp)
            check(got == d, 'an earlier response changed', d, got)
        for i, p in enumerate(self.ap):
            a = build.a_policy(self.pdp[i].policy)
            check(a == p, 'policy changed by evaluation', p, a)
        for j, r in enumerate(self.ar):
            a = build.a_request(self.req[j])
            check(a == r, 'request changed by evaluation', r, a)
        check((str(L.Decision.PERMIT), str(L.Decision.DENY),
               str(L.Decision.INDETERMINATE), str(L.Decision.NOT_APPLICABLE),
               str(L.Effect.PERMIT), str(L.Effect.DENY)) ==
              ('Permit', 'Deny', 'Indeterminate', 'NotApplicable', 'Permit',
               'Deny'), 'decision constants changed')


def ops(np, nr):
    out = [('eval', i, j) for i in range(np) for j in range(nr)]
    out += [('reload', i) for i in range(np)]
    out += [('swap', i, i + 1) for i in range(np - 1)]
    out += [('rerequest', j) for j in range(nr)]
    out += [('swapreq', 0, j) for j in range(1, nr)]
    out += [('value', j, v) for j in range(nr) for v in ('ab', 'zz', None)]
    out += [('flip', i) for i in range(np)] + [('rules', i) for i in range(np)]
    out += [('spoil',), ('clear',), ('log',)]
    return out


def histories(ctx, job, pols, reqs, depth):
    O = ops(len(pols), len(reqs))
    seqs = (s for n in range(depth + 1) for s in itertools.product(O, repeat=n)
            # a spoil / clear of nothing, or a trailing log, is a shorter history
            if not s or s[0][0] not in ('spoil', 'clear'))
    states = set()

    def one(s):
        ROOT.setLevel(logging.CRITICAL)
        w = World(pols, reqs, ctx.mode)
        try:
            for op in s:
                w.apply(op)
                ctx.step()
            w.verify()
            states.add(hash((tuple(w.ap), tuple(w.ar))))
            for _, d in w.responses[-1:]:
                ctx.outcome(d)
        finally:
            ROOT.setLevel(logging.CRITICAL)
    for s in shard(seqs, job):
        ctx.sample(repr(s))
        ctx.case(repr(s), one, s)
    ctx.state(len(states))


def wide(ctx, job):
    """All histories of length <=2 over the full pool."""
    histories(ctx, job, policies(), requests(), 2)


def narrow(ctx, job):
    """All histories of length <=3 (thorough 4) over a small pool."""
    P, R = policies(), requests()
    histories(ctx, job, [P[0], P[3]], [R[0], R[2]], 4 if ctx.thorough else 3)


def mid(ctx, job):
    P, R = policies(), requests()
    histories(ctx, job, P[1:5:1], [R[0], R[1], R[3]], 3)


VARIANTS = ['a%s', 'A%s', 'a%s ', ' a%s', 'a%sx', 'xa%s', 'a%s/', 'a%s#b', 'a%s.*',
            'a%s$', '\xe1%s', 'a\u0301%s', 'a%s\xad', 'a-%s', 'a_%s', '%s']
SLOTS = [('literal', f) for f in
         (EQ, RE1, F1 + 'anyURI-equal', RE2, F2 + 'dnsName-regexp-match',
          F1 + 'string-at-least-one-member-of', F2 + 'url-string-concatenate')
         ] + [(s, c) for s in ('id', 'issuer') for c in SECTIONS] + [
             ('custom', None)]


def confuse(ctx, job):
    """Two policies and two requests that differ in one string only, and only
    slightly, in every order of first use; strings never seen before."""
    n = itertools.count()
    for slot in SLOTS:
        for v, w in shard(itertools.permutations(VARIANTS, 2), job):
            tok = 'k%d' % next(n)
            key = (slot, v, w)
            ctx.sample(repr(key))
            ctx.case(repr(key), confused, ctx, slot, (v % tok, w % tok))


def slotted(slot, x):
    """Policy and request with the string x in the slot."""
    kind, arg = slot
    act = [attr('action', 'go')]
    if kind == 'literal':
        fn = arg
        t = spec.STD.match(fn).group(2).split('-')[0]
        t = 'anyURI' if t == 'url' else t
        d = Des('action', I1, t, None, False)
        one = Apply(F1 + t + '-one-and-only', (d,))
        if fn.endswith('member-of'):
            c = Apply(fn, (Apply(F1 + t + '-bag', (val(x, t),)), d))
        elif fn.endswith('concatenate'):
            c = Apply(F1 + 'anyURI-equal', (Apply(fn, (
                val('u', 'anyURI'), val(x))), one))
            x = 'u' + x
        else:
            c = Apply(fn, (val(x, t), one))
        return (Policy('p', 'deny-overrides', None, (Rule('r', 'P', None, c),)),
                request((), (), [Attr(I1, t, None, (x,))]))
    if kind == 'custom':
        c = Apply(EQ, (val(x), Apply(ONE, (Des('action', I1, 'string', None,
                                               True),))))
        return (Policy('p', 'first-applicable', None, (
            Rule('r', 'D', None, c), Rule('s', 'P', None, None))),
            request((), (), [Attr(I1, 'string', None, (x,))]))
    cat = arg
    a = (Attr(x, 'string', None, ('v',)) if kind == 'id' else
         Attr(I1, 'string', x, ('v',)))
    d = Des(cat, a.id, 'string', a.issuer, True)
    m = Match(EQ, val('v'), d)
    return (Policy('p', 'deny-overrides', target(**{cat: [(m,)]}), (
        Rule('r', 'P', None, None),)), request(**{cat: [a]}))


def confused(ctx, slot, xs):
    ps, rs = zip(*[slotted(slot, x) for x in xs])
    w = World(ps, rs, ctx.mode)
    for i, j in ((0, 0), (0, 1), (1, 1), (1, 0), (0, 0), (0, 1)):
        ctx.outcome(w.evaluate(i, j))
        ctx.step()
    w.apply(('swap', 0, 1))
    w.verify()
    ctx.state(4)


def soak(ctx, job):
    """Long lives: one decision point for thousands of evaluations over cycles
    of that many different requests; as many decision points used in turn."""
    P = policies()
    todo = [(i, k, keep) for i in range(len(P))
            for k in (1, 2, 3, 130, 600, 1100) + (4500,) * ctx.thorough
            for keep in (True, False)]
    for i, k, keep in shard(todo, job):
        ctx.case('requests %d %d %s' % (i, k, keep), many_requests, ctx, P[i],
                 k, keep)
    for k in (3, 130, 600, 1100) + (4500,) * ctx.thorough:
        for slot in shard(SLOTS, job):
            ctx.case('points %r %d' % (slot, k), many_points, ctx, slot, k)


def many_requests(ctx, p, k, keep):
    """keep: the same request objects used again, or equal new ones."""
    vs = ('ab', 'abc', 'x', 'b')
    def rq(n):
        S = lambda v, t='string', i=None: Attr(I1, t, i, (v,))
        return request([S(vs[n % 4], 'string', 'A' if n % 3 else None),
                        S(vs[n // 4 % 4], 'anyURI'), attr('subject', 's%d' % n)],
                       [attr('resource', 'r%d' % n)],
                       [S(vs[n // 2 % 4])] if n % 7 else [])
    ars = [rq(n) for n in range(k)]
    want = [decide(p, r) for r in ars]
    objs = [build.o_request(r) for r in ars] if keep else [None] * k
    pdp = build.o_pdp(p)
    for turn in range(max(2, 2200 // k)):
        for n in range(k) if turn % 2 == 0 else range(k - 1, -1, -1):
            o = objs[n] or build.o_request(ars[n])
            got = build.decision_of(pdp.evaluate(o))
            ctx.step()
            if got not in want[n]:
                raise Mismatch('evaluation %d.%d of %r on %r' % (
                    turn, n, p, ars[n]), sorted(want[n]), got)
        ctx.state()
    ctx.outcome('%d requests' % k)
    a = build.a_policy(pdp.policy)
    check(a == p, 'policy changed by evaluation', p, a)
    for n in range(0, k, 1 + k // 5):
        if objs[n]:
            a = build.a_request(objs[n])
            check(a == ars[n], 'request changed by evaluation', ars[n], a)


def many_points(ctx, slot, k):
    """Policies and requests that differ in one string, all of them alive."""
    tag = next(SERIAL)
    ps, rs = zip(*[slotted(slot, 'k%dx%d' % (tag, n)) for n in range(k)])
    pdps = [build.o_pdp(p) for p in ps]
    reqs = [build.o_request(r) for r in rs]
    hit, miss = decide(ps[0], rs[0]), decide(ps[0], rs[1])
    for d in (0, 1, 0, 2):
        for n in range(k):
            m = (n + d) % k
            got = build.decision_of(pdps[n].evaluate(reqs[m]))
            ctx.step()
            w = hit if m == n else miss
            if got not in w:
                raise Mismatch('policy %r on %r' % (ps[n], rs[m]), sorted(w),
                               got)
        ctx.state()
    ctx.outcome('%d policies' % k)


SERIAL = itertools.count()


# -- policies changed in place ------------------------------------------------------
def put(a, path, fn):
    """The abstract syntax tree with fn applied at the path."""
    if not path:
        return fn(a)
    k, rest = path[0], path[1:]
    if isinstance(k, str):
        return a._replace(**{k: put(getattr(a, k), rest, fn)})
    return a[:k] + (put(a[k], rest, fn),) + a[k + 1:]


I2 = 'urn:mc:id2'
MEMBER, BAG = F1 + 'string-at-least-one-member-of', F1 + 'string-bag'


def editable():
    d = Des('action', I1, 'string', None, False)
    sd = Des('subject', I1, 'string', None, False)
    c = Apply(F1 + 'and', (
        Apply(EQ, (val('k'), val('k'))),
        Apply(EQ, (val('ab'), Apply(ONE, (d,)))),
        Apply(MEMBER, (sd, Apply(BAG, (val('s'), val('t')))))))
    t = target(subject=((Match(EQ, val('s'), sd),), (Match(EQ, val('u'), sd),)))
    return PolicySet('set', 'first-applicable', None, (
        Policy('p', 'first-applicable', t, (
            Rule('deny', 'D', target(action=((Match(EQ, val('no'), d),),)), None),
            Rule('permit', 'P', None, c),
            Rule('rest', 'D', target(action=((Match(RE1, val('ab'), d),),)),
                 None))),))


def edited_requests():
    S = lambda v, i=None: Attr(I1, 'string', i, (v,))
    for s in ('s', 't', 'u', 'abx'):
        for a in ('ab', 'no', 'abc', 'nox'):
            yield request([S(s)], (), [S(a)])
    yield request([S('s', 'A')], (), [S('ab', 'A')])
    yield request([S('s')], (), [Attr(I2, 'string', None, ('ab',))])
    yield request((), (), ())


def shorter(i):
    def fn(x):
        x[i]                        # IndexError: nothing to take away
        return x[1:] if i == 0 else x[:-1]
    return fn


def edits():
    """(name, change of the object, path and function on the abstract policy)"""
    L = build.lib()
    P = ('children', 0)
    C = P + ('rules', 1, 'cond')
    T = P + ('target',)
    pol = lambda o: o.policies[0]
    cond_ = lambda o: pol(o).rules[1].condition.expression
    def setv(get, path, attr, field, new, anew=None):
        return (lambda o: setattr(get(o), attr, new), path + (field,),
                lambda _: new if anew is None else anew)
    m0 = lambda o: pol(o).target.subjects[0].matches[0]
    M0 = T + (0, 0, 0)
    rt = lambda o: pol(o).rules[0].target.actions[0].matches[0]
    d1 = lambda o: cond_(o).expressions[1].expressions[1].expressions[0]
    D1 = C + ('args', 1, 'args', 1, 'args', 0)
    bag_ = lambda o: cond_(o).expressions[2].expressions[1]
    B = C + ('args', 2, 'args', 1, 'args')
    w = val('abx')
    sd = Des('subject', I1, 'string', None, False)
    yield ('constant',) + setv(lambda o: cond_(o).expressions[0].expressions[0],
                               C + ('args', 0, 'args', 0), 'value', 'value', 'l')
    yield ('literal',) + setv(lambda o: cond_(o).expressions[1].expressions[0],
                              C + ('args', 1, 'args', 0), 'value', 'value', 'abc')
    yield ('in bag',) + setv(lambda o: bag_(o).expressions[1], B + (1,),
                             'value', 'value', 'u')
    yield ('bag longer', lambda o: bag_(o).expressions.append(
        build.o_expr(val('u'))), B, lambda x: x + (val('u'),))
    yield ('bag shorter', lambda o: bag_(o).expressions.pop(0), B,
           shorter(0))
    yield ('operand replaced', lambda o: cond_(o).expressions[1].expressions.
           __setitem__(0, build.o_expr(val('no'))), C + ('args', 1, 'args', 0),
           lambda x: val('no'))
    yield ('operands swapped', lambda o: cond_(o).expressions.reverse(),
           C + ('args',), lambda x: x[::-1])
    yield ('operand gone', lambda o: cond_(o).expressions.__delitem__(
        slice(1, 2)), C + ('args',), lambda x: x[:1] + x[2:])
    yield ('function',) + setv(lambda o: cond_(o).expressions[1],
                               C + ('args', 1), 'functionId', 'fn', RE1)
    yield ('designator id',) + setv(d1, D1, 'attributeId', 'id', I2)
    yield ('designator issuer',) + setv(d1, D1, 'issuer', 'issuer', 'A')
    yield ('match value',) + setv(lambda o: m0(o).attributeValue, M0 + ('val',),
                                  'value', 'value', 'abx')
    yield ('match value replaced', lambda o: setattr(
        m0(o), 'attributeValue', build.o_expr(val('t'))), M0 + ('val',),
        lambda x: val('t'))
    yield ('match function',) + setv(rt, P + ('rules', 0, 'target', 2, 0, 0),
                                     'matchId', 'fn', RE1)
    yield ('match must',) + setv(lambda o: m0(o).attributeDesignator,
                                 M0 + ('ref',), 'mustBePresent', 'mbp', True)
    yield ('entry more', lambda o: pol(o).target.subjects.append(
        build.o_target(target(subject=((Match(EQ, w, sd),),))).subjects[0]),
        T + (0,), lambda x: x + ((Match(EQ, w, sd),),))
    yield ('entry gone', lambda o: pol(o).target.subjects.pop(), T + (0,),
           shorter(-1))
    yield ('match more', lambda o: pol(o).target.subjects[1].matches.append(
        build.o_target(target(subject=((Match(EQ, w, sd),),))).subjects[0].
        matches[0]), T + (0, 1), lambda x: x + (Match(EQ, w, sd),))
    yield ('section gone', lambda o: pol(o).target.subjects.__delitem__(
        slice(None)), T + (0,), lambda x: ())
    nt = target(subject=((Match(EQ, val('t'), sd),),))
    yield ('target replaced', lambda o: setattr(
        pol(o), 'target', build.o_target(nt)), T, lambda x: nt)
    yield ('set target', lambda o: setattr(o, 'target', build.o_target(nt)),
           ('target',), lambda x: nt)
    yield ('rule target', lambda o: setattr(
        pol(o).rules[2], 'target', build.o_target(nt)), P + ('rules', 2,
                                                             'target'),
        lambda x: nt)
    nc = Apply(EQ, (val('k'), val('k')))
    def newcond(o):
        c = L.Condition()
        c.expression = build.o_expr(nc)
        pol(o).rules[1].condition = c
    yield ('condition', newcond, C, lambda x: nc)
    yield ('expression', lambda o: setattr(
        pol(o).rules[1].condition, 'expression', build.o_expr(nc)), C,
        lambda x: x.fn and nc)
    yield ('effect', lambda o: setattr(pol(o).rules[2].effect, 'value',
                                       'Permit'),
           P + ('rules', 2, 'effect'), lambda x: 'P')
    yield ('effect replaced', lambda o: setattr(
        pol(o).rules[0], 'effect', L.Effect('Permit')), P + ('rules', 0,
                                                             'effect'),
        lambda x: 'P')
    yield ('algorithm', lambda o: setattr(
        pol(o), 'ruleCombiningAlgId', RULE_ALG + 'deny-overrides'), P + ('alg',),
        lambda x: 'deny-overrides')
    yield ('rules swapped', lambda o: pol(o).rules.reverse(), P + ('rules',),
           lambda x: x[::-1])
    yield ('rule gone', lambda o: pol(o).rules.pop(), P + ('rules',),
           shorter(-1))
    nr = Rule('new', 'P', None, None)
    yield ('rule first', lambda o: pol(o).rules.insert(0, build.o_rule(nr)),
           P + ('rules',), lambda x: (nr,) + x)
    np_ = Policy('q', 'deny-overrides', None, (nr,))
    yield ('policy last', lambda o: o.policies.append(build.o_policy(np_)),
           ('children',), lambda x: x + (np_,))
    yield ('policy first', lambda o: o.policies.insert(0, build.o_policy(np_)),
           ('children',), lambda x: (np_,) + x)
    yield ('policy gone', lambda o: o.policies.pop(0), ('children',),
           shorter(0))
    yield ('set algorithm', lambda o: setattr(
        o, 'policyCombiningAlgId', POLICY_ALG + 'deny-overrides'), ('alg',),
        lambda x: 'deny-overrides')


def edit(ctx, job):
    """A policy set changed in place between evaluations, all sequences of
    changes; what can't be changed any more because of an earlier change ends
    the sequence."""
    E_ = list(edits())
    rs = list(edited_requests())
    os_ = [build.o_request(r) for r in rs]
    p = editable()
    n = 3 if ctx.thorough else 2
    for k in range(1, n + 1):
        for seq in shard(itertools.product(range(len(E_)), repeat=k), job):
            for x in (False, True):
                key = '%s %s' % (' > '.join(E_[i][0] for i in seq),
                                 'read' if x else 'made')
                ctx.sample(key)
                ctx.case(key, edited, ctx, p, [E_[i] for i in seq], rs, os_, x)


def edited(ctx, p, seq, rs, os_, read):
    pdp = build.x_pdp(p) if read else build.o_pdp(p)
    last = None
    for step in (None,) + tuple(seq):
        if step:
            name, change, path, fn = step
            try:
                q = put(p, path, fn)
            except (AttributeError, IndexError, TypeError):
                break               # the place does not exist any more
            if q.alg not in ALGS:
                break
            p = q
            change(pdp.policy)
        out = []
        for r, o in zip(rs, os_):
            got = build.decision_of(pdp.evaluate(o))
            ctx.step()
            want = decide(p, r)
            if got not in want:
                raise Mismatch('%s: %r on %r' % (step and step[0], p, r),
                               sorted(want), got)
            out.append(tuple(sorted(want)))
        if step and len(seq) == 1 and step[0] != 'operands swapped':
            assert out != last, 'no decision depends on %s' % step[0]
        last = out
        ctx.state()
    ctx.outcome(last[0])
    a = build.a_policy(pdp.policy)
    check(a == p, 'policy after the changes', p, a)


def run(ctx):
    globals()[base(ctx.job)](ctx, ctx.job)
