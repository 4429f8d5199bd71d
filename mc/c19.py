"""Decisions, effects and status codes come from closed vocabularies; the
constants never change and no result shares state with another one."""
import copy
import itertools
import pickle

from mc import build, spec
from mc.core import Mismatch, check
from mc.pdpcheck import base, shard
from mc.spec import *

DEC = ('Permit', 'Deny', 'Indeterminate', 'NotApplicable')
EFF = ('Permit', 'Deny')
PRE = 'urn:oasis:names:tc:xacml:1.0:status:'
CODES = tuple(PRE + c for c in ('ok', 'missing-attribute', 'processing-error',
                                'syntax-error'))


ONE = target(action=[(Match(F1 + 'string-equal', val('v'),
                            des('action', 'urn:mc:a')),)])
REQS = [request(action=[attr('action', 'v', id='urn:mc:' + i)]) for i in 'ab']


class Str(str):
    pass


class Like(object):
    """looks like a decision / effect but is none"""
    def __init__(self, v):
        self.value = v

    def __str__(self):
        return self.value


def neighbours(words):
    """every single edit of a word, and some more"""
    out = {'', ' ', '\n', 'None', 'permit', 'deny', 'PERMIT', 'True', '1',
           'Permit Deny', 'NA', 'Indeterminate{P}', 'Permit\x00',
           'urn:oasis:names:tc:xacml:1.0:status:', 'ok', 'Not Applicable',
           'Not-Applicable', 'Ｐermit', 'Ρermit'}
    for w in words:
        cut = range(len(w)) if len(w) < 20 else range(len(w) - 8, len(w))
        for i in cut:
            out.add(w[:i] + w[i + 1:])
            out.add(w[:i] + w[i].swapcase() + w[i + 1:])
            out.add(w[:i] + w[i] + w[i:])
            out.add(w[:i])
            out.add(w[i:] if i else w + ' ')
            if i:
                out.add(w[:i] + ' ' + w[i:])
        out |= {w.upper(), w.lower(), w.title(), ' ' + w, w + '\n', w + w,
                'xacml:' + w, w + 's', w[::-1], w + '\u200b'}
    for a, b in itertools.product(words, words):
        out.add(a + b)
        out.add(a + ',' + b)
    return sorted(out - set(words))


def kinds():
    """name -> (class, vocabulary, error for others, read-only constants)"""
    from ndg.xacml.core.context.result import Decision, StatusCode
    from ndg.xacml.core.rule import Effect
    from ndg.xacml.core import obligation as ob
    return {
        'decision': (Decision, DEC, dict(
            Permit=Decision.PERMIT, Deny=Decision.DENY,
            Indeterminate=Decision.INDETERMINATE,
            NotApplicable=Decision.NOT_APPLICABLE)),
        'effect': (Effect, EFF, dict(Permit=Effect.PERMIT, Deny=Effect.DENY)),
        'obligation effect': (ob.Effect, EFF, {}),
        'status': (StatusCode, CODES, {}),
    }


def make(kind, cls, v):
    if kind == 'status':
        o = cls()
        o.value = v
        return o
    return cls(v)


def odd(kind):
    K = kinds()
    out = [('None', None), ('True', True), ('False', False), ('0', 0),
           ('1', 1), ('1.0', 1.0), ('bytes', b'Permit'), ('list', ['Permit']),
           ('tuple', ('Permit',)), ('dict', {}), ('object', object()),
           ('set', {'Permit'}), ('type', str), ('like', Like('Permit')),
           ('like deny', Like('Deny')), ('self type', K[kind][0])]
    for k in K:
        if k != kind:
            for v in K[k][1][:2]:
                out.append(('%s %s' % (k, v), make(k, K[k][0], v)))
    return out


def constants_ok():
    for k, (cls, words, const) in kinds().items():
        for w, o in const.items():
            check(o.value == w and str(o) == w, 'constant %s %s' % (k, w), w,
                  o.value)
    from ndg.xacml.core.context.result import Decision, StatusCode
    from ndg.xacml.core.rule import Effect
    check(tuple(sorted(Decision.TYPES)) == tuple(sorted(DEC)) and
          tuple(sorted(Effect.TYPES)) == tuple(sorted(EFF)) and
          tuple(sorted(StatusCode.CODES)) == tuple(sorted(CODES)),
          'vocabularies', None, (Decision.TYPES, Effect.TYPES,
                                 StatusCode.CODES))


def outcome(fn):
    try:
        return ('ok', fn())
    except Exception as e:
        return ('raise', e)


def refused(got, what):
    check(got[0] == 'raise', what, 'refused', got)


def vocabulary(ctx, job):
    """Construction and assignment accept exactly the vocabulary."""
    for kind, (cls, words, const) in sorted(kinds().items()):
        for w in words:
            def good():
                ctx.state()
                for form in (w, Str(w)):
                    o = make(kind, cls, form)
                    check(o.value == w and isinstance(o.value, str), 'value',
                          w, o.value)
                    if kind != 'status':
                        check(str(o) == w, 'text', w, str(o))
                for old in words:
                    o = make(kind, cls, old)
                    o.value = w
                    ctx.step()
                    check(o.value == w, 'assigned', w, o.value)
                    if kind != 'status':
                        for src in ([make(kind, cls, w)] +
                                    [c for n, c in const.items() if n == w]):
                            o = make(kind, cls, old)
                            o.value = src
                            check(o.value == w and type(o.value) is not type(src),
                                  'assigned object', w, o.value)
                            o = cls(src)
                            check(o.value == w, 'copy', w, o.value)
                            # the copy has its own state
                            o.value = old
                            check(src.value == w, 'the source changed', w,
                                  src.value)
                    constants_ok()
                ctx.outcome('accepted')
            ctx.case('%s %s' % (kind, w), good)
        bad = [(repr(n), n) for n in neighbours(words)] + odd(kind)
        for lab, v in bad:
            def wrong():
                ctx.state()
                got = outcome(lambda: make(kind, cls, v))
                refused(got, '%s made of %s' % (kind, lab))
                for w in words:
                    ctx.step()
                    o = make(kind, cls, w)

                    def put():
                        o.value = v
                    got = outcome(put)
                    refused(got, '%s set to %s' % (kind, lab))
                    check(o.value == w, 'value after refused %s' % lab, w,
                          o.value)
                    ctx.outcome(type(got[1]).__name__)
                    if w in const:
                        def put2():
                            const[w].value = v
                        refused(outcome(put2), 'constant set to %s' % lab)
                constants_ok()
            ctx.case('%s %s' % (kind, lab), wrong)
        for w, o in const.items():
            def immutable():
                for v in words:
                    ctx.step()
                    for src in (v, make(kind, cls, v), const.get(v, v)):
                        def put():
                            o.value = src
                        refused(outcome(put), 'constant %s set to %r' % (w, v))

                        def mk():
                            setattr(o, 'other', src)
                        outcome(mk)
                        check(o.value == w, 'constant', w, o.value)

                def rm():
                    del o.value
                outcome(rm)
                constants_ok()
            ctx.case('constant %s %s' % (kind, w), immutable)


def comparison(ctx, job):
    for kind, (cls, words, const) in sorted(kinds().items()):
        if kind == 'status':
            continue
        left = [('new', w, make(kind, cls, w)) for w in words] + [
            ('constant', w, o) for w, o in const.items()] + [
            ('copy', w, copy.copy(make(kind, cls, w))) for w in words]
        right = left + [('str', w, w) for w in words] + [
            ('Str', w, Str(w)) for w in words]
        for a, wa, x in left:
            for b, wb, y in right:
                def one():
                    ctx.state()
                    check((x == y) is (wa == wb), '==', wa == wb, x == y)
                    check((x != y) is (wa != wb), '!=', wa != wb, x != y)
                    if b in ('str', 'Str'):
                        check((y == x) is (wa == wb), 'reversed ==', wa == wb,
                              y == x)
                        check((y != x) is (wa != wb), 'reversed !=', wa != wb,
                              y != x)
                    ctx.outcome(wa == wb)
                ctx.case('%s: %s %s %s %s' % (kind, a, wa, b, wb), one)
            for lab, v in [(repr(n), n) for n in neighbours(words)] + odd(kind):
                def never():
                    ctx.state()
                    got = outcome(lambda: x == v)
                    check(got[0] == 'raise' or got[1] is False,
                          'equal to ' + lab, 'no', got)
                    # what isn't comparable is reported
                    check(got[0] == 'raise', 'compared with ' + lab, 'an error',
                          got)
                    got = outcome(lambda: x != v)
                    check(got[0] == 'raise', 'compared with ' + lab, 'an error',
                          got)
                    check(x.value == wa, 'value', wa, x.value)
                ctx.case('%s: %s %s with %s' % (kind, a, wa, lab), never)
            if kind == 'effect':
                def truth():
                    check(bool(x) is (wa == 'Permit'), 'truth of the effect',
                          wa == 'Permit', bool(x))
                ctx.case('%s: bool %s %s' % (kind, a, wa), truth)


def copies(ctx, job):
    """Histories: objects, copies and constants, each changed in turn."""
    makers = [('copy', copy.copy), ('deepcopy', copy.deepcopy)] + [
        ('pickle%d' % p, lambda o, p=p: pickle.loads(pickle.dumps(o, p)))
        for p in range(2, pickle.HIGHEST_PROTOCOL + 1)]
    for kind, (cls, words, const) in sorted(kinds().items()):
        if kind == 'status':
            continue
        srcs = [('new ' + w, w, lambda w=w: make(kind, cls, w))
                for w in words] + [('constant ' + w, w, lambda o=o: o)
                                   for w, o in const.items()]
        for (lab, w, src), (m, mk), (m2, mk2) in itertools.product(
                srcs, makers, makers):
            def one():
                a = src()
                b = mk(a)
                c = mk2(b)
                ctx.state()
                objs, vals = [a, b, c], [w, w, w]
                # a constant's copy is as little changeable as itself
                fixed = lab.startswith('constant')
                for seq in itertools.product(range(3), words, range(3), words):
                    for i, v in (seq[:2], seq[2:]):
                        ctx.step()

                        def put():
                            objs[i].value = v
                        got = outcome(put)
                        if fixed:
                            refused(got, 'constant or copy set')
                        else:
                            check(got[0] == 'ok', 'set', 'ok', got)
                            vals[i] = v
                        now = [o.value for o in objs]
                        check(now == vals, 'values after setting number %d to '
                              '%s' % (i, v), vals, now)
                        check([str(o) for o in objs] == vals and
                              all(type(o) is type(a) for o in objs),
                              'copies', vals, objs)
                        check((objs[0] == objs[1]) is (vals[0] == vals[1]) and
                              (objs[1] == objs[2]) is (vals[1] == vals[2]),
                              'comparison of copies', vals, objs)
                constants_ok()
            ctx.case('%s %s %s %s' % (kind, lab, m, m2), one)


def results(ctx, job):
    """Results made by hand."""
    from ndg.xacml.core.context.result import (Decision, Result, Status,
                                               StatusCode)
    K = kinds()
    vals = [(w, w, lambda w=w: w) for w in DEC] + [
        ('object ' + w, w, lambda w=w: Decision(w)) for w in DEC] + [
        ('constant ' + w, w, lambda w=w: K['decision'][2][w]) for w in DEC]
    for (a, wa, x), (b, wb, y) in itertools.product(vals, vals):
        def one():
            ctx.state()
            xo = x()
            r = Result.createInitialised(decision=xo)
            check(r.decision.value == wa, 'decision', wa, r.decision.value)
            s = Result.createInitialised(decision=y(), code=CODES[2])
            check(s.decision.value == wb and r.decision.value == wa,
                  'second result', (wa, wb), (r.decision, s.decision))
            check(r.status.statusCode.value == CODES[0] and
                  s.status.statusCode.value == CODES[2], 'status codes', None,
                  (r.status.statusCode.value, s.status.statusCode.value))
            # changing one result leaves the other and its sources
            for w in DEC:
                r.decision.value = w
                check(s.decision.value == wb and str(xo) == wa,
                      'changing a result', wb, (s.decision, xo))
            d = Decision(wb)
            r.decision = d
            check(r.decision.value == wb, 'assigned', wb, r.decision)
            constants_ok()
        ctx.case('%s %s' % (a, b), one)
    for lab, v in [(repr(n), n) for n in neighbours(DEC)] + odd('decision'):
        def bad():
            ctx.state()
            refused(outcome(lambda: Result.createInitialised(decision=v)),
                    'result with decision ' + lab)
            r = Result.createInitialised(decision='Deny')

            def put():
                r.decision = v
            refused(outcome(put), 'decision set to ' + lab)
            check(r.decision.value == 'Deny', 'decision', 'Deny', r.decision)
        ctx.case('decision %s' % lab, bad)
    for lab, v in [(repr(n), n) for n in neighbours(CODES)] + odd('status'):
        if v is None:
            continue

        def badcode():
            ctx.state()
            refused(outcome(lambda: Status.createInitialised(code=v)),
                    'status with code ' + lab)
            refused(outcome(lambda: Result.createInitialised(code=v)),
                    'result with code ' + lab)
        ctx.case('code %s' % lab, badcode)


def evaluations(ctx, job):
    """Histories: evaluate, let the caller change what was returned, evaluate
    again: nothing returned before influences an answer."""
    one = ONE
    fail = Apply(F1 + 'string-equal', (Apply(F1 + 'string-one-and-only', (
        des('action', 'urn:mc:none'),)), val('x')))

    def P(alg, *rs, **kw):
        return Policy(kw.get('id', 'urn:mc:p'), alg, None, tuple(
            Rule('urn:mc:r%d' % i, e, t, c)
            for i, (e, t, c) in enumerate(rs)))
    pols = [
        ('permit', P('deny-overrides', ('P', None, None))),
        ('deny', P('deny-overrides', ('D', None, None))),
        ('indet', P('permit-overrides', ('P', None, fail))),
        ('none', P('first-applicable', ('P', one, None), ('D', one, None))),
        ('mixed', P('permit-overrides', ('D', one, None), ('P', None, fail))),
        ('set', PolicySet('urn:mc:ps', 'deny-overrides', None,
                          (P('deny-overrides', ('D', one, None)),
                           P('permit-overrides', ('P', None, None),
                             id='urn:mc:q')))),
    ]
    reqs = REQS
    from ndg.xacml.core.context.result import Decision, Result, StatusCode

    def set_decision(w):
        def do(resp):
            try:
                resp.results[0].decision.value = w
            except AttributeError:
                pass        # one of the constants
        return do

    def replace(w):
        def do(resp):
            resp.results[0].decision = Decision(w)
        return do

    def status(resp):
        st = resp.results[0].status
        st.statusCode.value = CODES[2]
        st.statusMessage = 'changed'
        st.statusDetail = 'changed'

    def add(resp):
        resp.results.append(Result.createInitialised(decision='Permit'))

    def clear(resp):
        del resp.results[:]

    ch = [('set ' + w, set_decision(w)) for w in DEC] + [
        ('replace ' + w, replace(w)) for w in ('Permit', 'Deny')] + [
        ('status', status), ('add', add), ('clear', clear),
        ('nothing', lambda r: None)]
    # first thing every answer is compared with
    ref = {}
    for (pn, p), (qn, q) in shard(itertools.product(pols, pols), job):
        libs = {}

        def pdp(n, pol):
            if n not in libs:
                libs[n] = build.x_pdp(pol)
            return libs[n]
        for r1, r2 in itertools.product(range(2), repeat=2):
            for (c1, f1), (c2, f2) in itertools.product(ch, ch):
                def run_():
                    ctx.state()
                    kept = []
                    for n, pol, r, f in ((pn, p, r1, f1), (qn, q, r2, f2),
                                         (pn, p, r1, None), (qn, q, r1, None)):
                        want, = spec.decide(pol, reqs[r])
                        want = DECISION[want]
                        resp = pdp(n, pol).evaluate(build.x_request(reqs[r]))
                        ctx.step()
                        check(len(resp.results) == 1, 'number of results', 1,
                              len(resp.results))
                        got = str(resp.results[0].decision)
                        check(got == want, 'decision of %s' % n, want, got)
                        st = resp.results[0].status
                        now = (st.statusCode.value, st.statusMessage,
                               st.statusDetail)
                        first = ref.setdefault((n, r), now)
                        check(now == first, 'status of %s' % n, first, now)
                        # what was handed out before stays what it was made
                        for o, v in kept:
                            check(snapshot(o) == v,
                                  'an earlier response changed', v,
                                  snapshot(o))
                        if f:
                            f(resp)
                        kept.append((resp, snapshot(resp)))
                        ctx.outcome(got)
                    constants_ok()
                ctx.case('%s %s %d %d %s %s' % (pn, qn, r1, r2, c1, c2), run_)


def snapshot(resp):
    return [(str(r.decision), r.resourceId, r.status.statusCode.value,
             r.status.statusMessage, r.status.statusDetail)
            for r in resp.results]


def rules(ctx, job):
    """Effects of loaded rules are their own."""
    pol = Policy('urn:mc:p', 'first-applicable', None, (
        Rule('a', 'P', ONE, None), Rule('b', 'D', None, None),
        Rule('c', 'P', None, None)))
    other = Policy('urn:mc:q', 'first-applicable', None,
                   (Rule('a', 'P', None, None),))
    req = REQS
    for i, e, j, e2 in itertools.product(range(3), EFF, range(3), EFF):
        for style in ('value', 'object', 'constant'):
            def one():
                from ndg.xacml.core.rule import Effect
                a, b = build.x_pdp(pol), build.x_pdp(other)
                eff = ['Permit', 'Deny', 'Permit']
                ctx.state()
                for k, v in ((i, e), (j, e2)):
                    r = a.policy.rules[k]
                    if style == 'value':
                        try:
                            r.effect.value = v
                        except AttributeError:
                            break       # one of the constants
                    else:
                        r.effect = (Effect(v) if style == 'object' else
                                    {'Permit': Effect.PERMIT,
                                     'Deny': Effect.DENY}[v])
                    eff[k] = v
                    ctx.step()
                    want = [eff[0], eff[1]]
                    got = [str(a.evaluate(build.x_request(q)).results[0]
                               .decision) for q in req]
                    check(got == want, 'decisions', want, got)
                    check([str(x.effect) for x in a.policy.rules] == eff,
                          'effects', eff, None)
                    check(str(b.evaluate(build.x_request(req[0])).results[0]
                              .decision) == 'Permit', 'another policy',
                          'Permit', None)
                constants_ok()
            ctx.case('%d %s %d %s %s' % (i, e, j, e2, style), one)


def published():
    """(where, value published, value of the standard)"""
    import importlib
    P1, S, R, A, E = ('urn:oasis:names:tc:xacml:1.0:', 'subject:', 'resource:',
                      'action:', 'environment:')
    I = {'Subject': {
        'AUTHN_LOCALITY_DNS_NAME': S + 'authn-locality:dns-name',
        'AUTHN_LOCALITY_IP_ADDRESS': S + 'authn-locality:ip-address',
        'AUTHN_METHOD': S + 'authentication-method',
        'AUTHN_TIME': S + 'authentication-time',
        'KEY_INFO': S + 'key-info', 'REQUEST_TIME': S + 'request-time',
        'SESSION_START_TIME': S + 'session-start-time',
        'SUBJECT_ID': S + 'subject-id',
        'SUBJECT_ID_QUALIFIER': S + 'subject-id-qualifier'},
        'SubjectCategory': {
            'ACCESS_SUBJECT': 'subject-category:access-subject',
            'CODEBASE': 'subject-category:codebase',
            'INTERMEDIARY_SUBJECT': 'subject-category:intermediary-subject',
            'RECIPIENT_SUBJECT': 'subject-category:recipient-subject',
            'REQUESTING_MACHINE': 'subject-category:requesting-machine'},
        'Resource': {'RESOURCE_LOCATION': R + 'resource-location',
                     'RESOURCE_ID': R + 'resource-id',
                     'SIMPLE_FILE_NAME': R + 'simple-file-name'},
        'Action': {'ACTION_ID': A + 'action-id',
                   'IMPLIED_ACTION': A + 'implied-action'},
        'Environment': {'CURRENT_TIME': E + 'current-time',
                        'CURRENT_DATE': E + 'current-date',
                        'CURRENT_DATETIME': E + 'current-dateTime'}}
    core = importlib.import_module('ndg.xacml.core')
    out = []
    for c in I:
        for k in I[c]:
            out.append(('Identifiers.%s.%s' % (c, k),
                        getattr(getattr(core.Identifiers, c), k),
                        P1 + I[c][k]))
    for m, cls, k, v in (
            ('subject', 'Subject', 'ID', P1 + S + 'subject-id'),
            ('resource', 'Resource', 'ID', P1 + R + 'resource-id'),
            ('action', 'Action', 'ID', P1 + A + 'action-id'),
            ('environment', 'Environment', 'CURRENT_DATE_URI',
             P1 + E + 'current-date')):
        o = getattr(importlib.import_module('ndg.xacml.core.' + m), cls)
        out.append(('%s.%s' % (cls, k), getattr(o, k), v))
    return out


def types():
    X = 'http://www.w3.org/2001/XMLSchema#'
    Q = 'http://www.w3.org/TR/2002/WD-xquery-operators-20020816#'
    N = 'urn:oasis:names:tc:xacml:%s:data-type:'
    return {'String': X + 'string', 'AnyURI': X + 'anyURI',
            'Integer': X + 'integer', 'Boolean': X + 'boolean',
            'Double': X + 'double', 'Date': X + 'date',
            'DateTime': X + 'dateTime', 'Time': X + 'time',
            'DayTimeDuration': Q + 'dayTimeDuration',
            'YearMonthDuration': Q + 'yearMonthDuration',
            'X500Name': N % '1.0' + 'x500Name',
            'Rfc822Name': N % '1.0' + 'rfc822Name',
            'HexBinary': X + 'hexBinary', 'Base64Binary': X + 'base64Binary',
            'IpAddress': N % '2.0' + 'ipAddress',
            'DnsName': N % '2.0' + 'dnsName'}


def identifiers(ctx, job):
    """The identifiers the library publishes are those of the standard: a
    policy made with one applies to documents with exactly that one."""
    L = build.lib()
    from ndg.xacml.core.context.result import StatusCode
    from ndg.xacml.core.attributevalue import (AttributeValue,
                                               AttributeValueClassFactory)
    ids = [(w, g, v) for w, g, v in published() if 'Category' not in w]
    docs = sorted({v for w, g, v in ids})
    reqs = {v: build.x_request(request(action=[attr('action', 'v', id=v)]))
            for v in docs}
    for w, got, want in published():
        def same():
            ctx.state()
            check(got == want, w, want, got)
        ctx.case(w, same)
    for w, got, want in ids:
        p = Policy('urn:mc:p', 'deny-overrides', target(action=[
            (Match(F1 + 'string-equal', val('v'), des('action', got)),)]),
            (Rule('urn:mc:r', 'P', None, None),))
        pdp = build.o_pdp(p)
        for v in docs:
            def one():
                ctx.state()
                d = build.decision_of(pdp.evaluate(reqs[v]))
                check(d == ('P' if v == want else 'N'),
                      'policy for %s, request with %s' % (w, v), want, d)
            ctx.case('%s %s' % (w, v), one)
    T = types()
    factory = AttributeValueClassFactory()
    for name, uri in T.items():
        def typ():
            ctx.state()
            const = {'AnyURI': 'ANY'}.get(name, name.upper()) + '_TYPE_URI'
            check(getattr(AttributeValue, const) == uri, const, uri,
                  getattr(AttributeValue, const))
            check(AttributeValue.TYPE_URI_MAP[name] == uri,
                  'type of the name ' + name, uri,
                  AttributeValue.TYPE_URI_MAP[name])
            cls = factory(uri)
            check(cls is not None and cls.IDENTIFIER == uri and
                  cls.__name__ == name + 'AttributeValue',
                  'class of ' + uri, name, cls)
        ctx.case('type ' + name, typ)

    def sets():
        ctx.state()
        check(sorted(AttributeValue.TYPE_URI_MAP) == sorted(T) and
              sorted(AttributeValue.TYPE_URIS) == sorted(T.values()),
              'types', sorted(T), AttributeValue.TYPE_URI_MAP)
        check(sorted(StatusCode.CODES) == sorted(CODES) and
              [StatusCode.OK, StatusCode.MISSING_ATTRIBUTE,
               StatusCode.PROCESSING_ERROR, StatusCode.SYNTAX_ERROR] ==
              list(CODES), 'status codes', CODES, StatusCode.CODES)
    ctx.case('sets', sets)


def run(ctx):
    globals()[base(ctx.job)](ctx, ctx.job)
