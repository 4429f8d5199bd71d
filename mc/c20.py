"""Attributes of policy, request and result objects accept only their kind."""
import datetime
import itertools

from mc import build, spec
from mc.core import Mismatch, check
from mc.pdpcheck import base, shard
from mc.spec import *


class Str(str):
    pass


class World(object):
    """The library's classes, a table of their attributes and one or more
    objects of every kind to assign."""

    def __init__(self):
        from ndg.xacml.core import target, subject, resource, action, \
            environment, match as M, apply as ap, attribute, \
            attributevalue as avm, attributedesignator as D, \
            attributeselector as S, condition, policy, policyset, rule, \
            obligation, policydefaults, policy_combining_alg as pca, \
            rule_combining_alg as rca, expression, policybase
        from ndg.xacml.core.context import request as R, response as RS, \
            result, pdp, exceptions as ex, handlerinterface as hi, \
            subject as cs, resource as cr, action as ca, environment as ce, \
            handler as hb, pipinterface as pi, pdpinterface as di
        from ndg.xacml.core import functions as fn
        from ndg.xacml.utils import TypedList, xpath_selector as xs
        f = avm.AttributeValueClassFactory()
        values = dict((n, f(TYPE[n])) for n in TYPE if n != 'base64Binary')

        class Handler(hi.CtxHandlerInterface):
            def handlePEPRequest(self, pepRequest):
                return None

            def pipQuery(self, request, designator):
                return None

        class Base(hb.CtxHandlerBase):
            def handlePEPRequest(self, pepRequest):
                return None

            def pipQuery(self, request, designator):
                return None

        class PIP(pi.PIPInterface):
            def attributeQuery(self, request, designator):
                return None

        class Selector(xs.XPathSelectorInterface):
            def __init__(self, x=None):
                pass

            def selectText(self, path):
                return []

        class RuleSub(rule.Rule):
            pass

        class ConditionSub(condition.Condition):
            pass

        class TargetSub(target.Target):
            pass

        class RFactory(rca.RuleCombiningAlgClassFactory):
            pass

        class PFactory(pca.PolicyCombiningAlgClassFactory):
            pass

        class Assign(obligation.AttributeAssignment):
            TYPE = str
            IDENTIFIER = XS + 'string'

        DES = (D.SubjectAttributeDesignator, D.ResourceAttributeDesignator,
               D.ActionAttributeDesignator, D.EnvironmentAttributeDesignator)
        text, flag = str, bool
        common = [('xmlns', text)]
        m = common + [
            ('attributeValue', avm.AttributeValue),
            ('attributeDesignator', D.AttributeDesignator),
            ('attributeSelector', S.AttributeSelector),
            ('matchId', 'function'), ('loadFunctionFromId', flag),
            ('functionMap', fn.FunctionMap), ('function', None)]
        d = common + [('attributeId', text), ('dataType', text),
                      ('issuer', text), ('mustBePresent', flag),
                      ('attributeValueFactory', None)]
        err = [('response', RS.Response)]
        child = common + [('attributes', None)]
        self.table = [
            ('PolicySet', policyset.PolicySet, common + [
                ('policySetId', text), ('version', text),
                ('description', text), ('target', target.Target),
                ('policySetDefaults', policydefaults.PolicyDefaults),
                ('policyCombiningAlgId', 'policy algorithm'),
                ('policyCombiningAlgFactory',
                 pca.PolicyCombiningAlgClassFactory),
                ('policyCombiningAlg', None), ('ident', None),
                ('policies', None), ('obligations', None)]),
            ('Policy', policy.Policy, common + [
                ('policyId', text), ('version', text), ('description', text),
                ('target', target.Target),
                ('policyDefaults', policydefaults.PolicyDefaults),
                ('ruleCombiningAlgId', 'rule algorithm'),
                ('ruleCombiningAlgFactory', rca.RuleCombiningAlgClassFactory),
                ('ruleCombiningAlg', None), ('ident', None), ('rules', None),
                ('obligations', None)]),
            ('PolicyDefaults', policydefaults.PolicyDefaults,
             common + [('xpathVersion', text)]),
            ('Rule', rule.Rule, common + [
                ('id', text), ('description', text), ('effect', rule.Effect),
                ('target', target.Target),
                ('condition', condition.Condition)]),
            ('Target', target.Target, common + [
                ('subjects', None), ('resources', None), ('actions', None),
                ('environments', None)]),
            ('Subject', subject.Subject, common + [
                ('matches', None), ('subjectMatches', None)]),
            ('Resource', resource.Resource, common + [
                ('matches', None), ('resourceMatches', None)]),
            ('Action', action.Action, common + [
                ('matches', None), ('actionMatches', None)]),
            ('Environment', environment.Environment, common + [
                ('matches', None), ('environmentMatches', None)]),
            ('SubjectMatch', M.SubjectMatch, m),
            ('ResourceMatch', M.ResourceMatch, m),
            ('ActionMatch', M.ActionMatch, m),
            ('EnvironmentMatch', M.EnvironmentMatch, m),
            ('Apply', ap.Apply, common + [
                ('functionId', 'function'), ('loadFunctionFromId', flag),
                ('functionMap', fn.FunctionMap), ('function', None),
                ('expressions', None)]),
            ('Condition', condition.Condition, common + [
                ('expression', expression.Expression)]),
            ('SubjectAttributeDesignator', DES[0], d),
            ('ResourceAttributeDesignator', DES[1], d),
            ('ActionAttributeDesignator', DES[2], d),
            ('EnvironmentAttributeDesignator', DES[3], d),
            ('AttributeSelector', S.AttributeSelector, common + [
                ('dataType', text), ('requestContextPath', text),
                ('mustBePresent', flag), ('attributeValueFactory', None)]),
            ('Obligation', obligation.Obligation, [
                ('obligationId', text), ('fulfillOn', text),
                ('attributeAssignments', None)]),
            ('Attribute', attribute.Attribute, common + [
                ('attributeId', text), ('dataType', text), ('issuer', text),
                ('attributeValues', TypedList)]),
            ('Request', R.Request, common + [
                ('action', ca.Action), ('environment', ce.Environment),
                ('ctxHandler', hi.CtxHandlerInterface),
                ('attributeSelector', xs.XPathSelectorInterface),
                ('subjects', None), ('resources', None)]),
            ('context Subject', cs.Subject,
             child + [('subjectCategory', text)]),
            ('context Resource', cr.Resource, child),
            ('context Action', ca.Action, child),
            ('context Environment', ce.Environment, child),
            ('Response', RS.Response, common + [('results', None)]),
            ('Result', result.Result, common + [
                ('resourceId', text), ('decision', result.Decision),
                ('status', result.Status),
                ('obligations', obligation.Obligation)]),
            ('Status', result.Status, common + [
                ('statusCode', result.StatusCode), ('statusMessage', text)]),
            ('PDP', pdp.PDP, [('policy', policybase.PolicyBase)]),
            ('context handler', Base, [('pip', pi.PIPInterface),
                                       ('pdp', di.PDPInterface)]),
            ('XacmlContextError', ex.XacmlContextError, err),
            ('XacmlContextTypeError', ex.XacmlContextTypeError, err),
            ('MissingAttributeError', ex.MissingAttributeError, err),
        ]
        for n in sorted(values):
            native = {'string': str, 'anyURI': str, 'integer': int,
                      'boolean': bool, 'double': float,
                      'date': datetime.datetime, 'time': datetime.datetime,
                      'dateTime': datetime.datetime,
                      'dayTimeDuration': datetime.timedelta,
                      'yearMonthDuration': datetime.timedelta,
                      'hexBinary': int}.get(n, str)
            self.table.append(('value ' + n, values[n], common + [
                ('dataType', text), ('value', native)]))
        # attributes that may be without value when nothing was set
        self.objects = [
            ('None', None), ('str', 'urn:mc:x'), ('empty str', ''),
            ('sub str', Str('y')), ('bytes', b'x'), ('int', 1), ('zero', 0),
            ('float', 1.5), ('True', True), ('False', False),
            ('list', []), ('list of str', ['x']), ('tuple', ()),
            ('dict', {}), ('set', set()), ('object', object()), ('type', str),
            ('exception', ValueError('x')), ('function', len),
            ('lambda', lambda *a: None),
            ('datetime', datetime.datetime(2020, 1, 2)),
            ('date', datetime.date(2020, 1, 2)),
            ('time', datetime.time(1, 2)),
            ('timedelta', datetime.timedelta(1)),
            ('complex', 1j), ('typed list', TypedList(avm.AttributeValue)),
            ('typed str list', TypedList(str)),
        ] + [
            (n, c('x') if 'Error' in n else c()) for n, c, _ in self.table] + [
            (n + ' class', c) for n, c, _ in self.table[:6]] + [
            ('Permit effect', rule.Effect.PERMIT),
            ('Deny effect', rule.Effect('Deny')),
            ('Permit decision', result.Decision.PERMIT),
            ('decision', result.Decision('Deny')),
            ('obligation effect', obligation.Effect('Permit')),
            ('status code', result.StatusCode()),
            ('assignment', Assign('x')), ('function map', fn.FunctionMap()),
            ('std function map', fn.functionMap),
            ('rule factory', rca.RuleCombiningAlgClassFactory()),
            ('policy factory', pca.PolicyCombiningAlgClassFactory()),
            ('rule factory 2', RFactory()), ('policy factory 2', PFactory()),
            ('rule alg', rca.DenyOverridesRuleCombiningAlg()),
            ('policy alg', pca.DenyOverridesPolicyCombiningAlg()),
            ('handler', Handler()), ('information point', PIP()), ('selector', Selector()),
            ('handler class', Handler), ('rule sub', RuleSub()),
            ('condition sub', ConditionSub()), ('target sub', TargetSub()),
        ]
        for n in sorted(values):
            self.objects.append(('value class ' + n, values[n]))
        names = {'function': [F1 + 'string-equal', F1 + 'integer-equal',
                              F1 + 'and', F1 + 'not'],
                 'rule algorithm': [RULE_ALG + a for a in ALGS],
                 'policy algorithm': [POLICY_ALG + a for a in ALGS]}
        unknown = {
            'function': [F1 + 'nothing', F1 + 'string-greater-than',
                         'urn:mc:function:unknown', F1, '', 'string-equal',
                         F1 + 'string-nothing', RULE_ALG + ALGS[0]],
            'rule algorithm': [RULE_ALG + 'nothing', POLICY_ALG + ALGS[0],
                               RULE_ALG + 'only-one-applicable', '', ALGS[0],
                               RULE_ALG + 'ordered-deny-overrides',
                               RULE_ALG, F1 + 'and'],
            'policy algorithm': [POLICY_ALG + 'nothing', RULE_ALG + ALGS[0],
                                 POLICY_ALG + 'only-one-applicable', '',
                                 ALGS[0], POLICY_ALG, F1 + 'and'],
        }
        self.names, self.unknown = names, unknown

    def cls(self, name):
        return [c for n, c, _ in self.table if n == name][0]

    def make(self, name):
        c = self.cls(name)
        return c('x') if 'Error' in name else c()

    def accepted(self, owner, prop, kind, v, load=True):
        """True / False / None (unspecified)"""
        if kind == 'function' and not load:
            return isinstance(v, str)
        if kind is None:
            return False
        if isinstance(kind, str):       # name of a function or algorithm
            return isinstance(v, str) and v in self.names[kind]
        if kind is bool:
            return isinstance(v, bool)
        if owner.startswith('value ') and prop == 'value':
            if kind is int and isinstance(v, bool):
                return None
        return isinstance(v, kind)


def outcome(fn):
    try:
        return ('ok', fn())
    except Exception as e:
        return ('raise', e)


def snapshot(o, props):
    """identity of every attribute, content of collections"""
    out = {}
    for p, _ in props:
        v = getattr(o, p)
        out[p] = (v, list(v) if isinstance(v, list) else None)
    return out


def same(a, b, but=()):
    """names of attributes that differ"""
    out = []
    for p in a:
        if p in but:
            continue
        (x, xs), (y, ys) = a[p], b[p]
        if x is not y and not (isinstance(x, (str, bool)) and x == y and
                               type(x) is type(y)):
            out.append(p)
        elif xs is not None and (len(xs) != len(ys) or any(
                i is not j for i, j in zip(xs, ys))):
            out.append(p)
    return out


# attributes that an accepted value of another one may change
EFFECTS = {'matchId': ('function',), 'functionId': ('function',),
           'attributeDesignator': ('attributeSelector',),
           'attributeSelector': ('attributeDesignator',),
           'policyId': ('ident',), 'policySetId': ('ident',),
           'ruleCombiningAlgId': ('ruleCombiningAlg',),
           'policyCombiningAlgId': ('policyCombiningAlg',)}


def populate(w, name, props, which):
    """An object with every attribute set (which: picks among the values)."""
    o = w.make(name)
    for p, kind in props:
        if kind is None:
            continue
        if isinstance(kind, str):
            good = w.names[kind]
        else:
            good = [v for _, v in w.objects
                    if w.accepted(name, p, kind, v) is True]
        check(len(good) > 0, 'no value for %s.%s' % (name, p))
        setattr(o, p, good[which % len(good)])
    return o


def values(w, kind):
    out = list(w.objects)
    if isinstance(kind, str):
        out += [(n, n) for n in w.names[kind] + w.unknown[kind]]
    return out


def assign(w, o, name, props, p, kind, lab, v):
    """one assignment, compared with the table; returns whether accepted"""
    before = snapshot(o, props)
    got = outcome(lambda: setattr(o, p, v))
    after = snapshot(o, props)
    load = getattr(o, 'loadFunctionFromId', True)
    ok = w.accepted(name, p, kind, v, load)
    what = '%s.%s = %s' % (name, p, lab)
    if ok is None:
        ok = got[0] == 'ok'
    if ok:
        check(got[0] == 'ok', what, 'accepted', got)
        x = getattr(o, p)
        check(x is v or (isinstance(v, str) and x == v), what, v, x)
        d = same(before, after, (p,) + (
            EFFECTS.get(p, ()) if load or kind != 'function' else ()))
        check(not d, what + ' changed other attributes', (), d)
        if 'Match' in name and p in ('attributeDesignator',
                                     'attributeSelector'):
            check(getattr(o, EFFECTS[p][0]) is None,
                  what + ': both designator and selector', None,
                  getattr(o, EFFECTS[p][0]))
        if p in ('policyId', 'policySetId'):
            check(o.ident == v, what, v, o.ident)
    else:
        check(got[0] == 'raise', what, 'refused', 'accepted')
        if kind is not None and not (isinstance(kind, str) and
                                     isinstance(v, str)):
            check(isinstance(got[1], TypeError), what, 'TypeError', got)
        d = same(before, after)
        check(not d, 'refused %s changed attributes' % what, (), d)
    return ok


def single(ctx, job):
    """every attribute of every class x every object, in three states"""
    w = World()
    for name, cls, props in shard(w.table, job):
        for p, kind in props:
            for lab, v in values(w, kind):
                def one():
                    ctx.state()
                    witness = w.make(name)
                    fresh = snapshot(witness, props)
                    for state in (None, 0, 1):
                        o = (w.make(name) if state is None else
                             populate(w, name, props, state))
                        ctx.step()
                        ok = assign(w, o, name, props, p, kind, lab, v)
                        ctx.outcome('accepted' if ok else 'refused')
                        # twice: the same answer
                        check(assign(w, o, name, props, p, kind, lab, v) == ok,
                              'second assignment', ok, not ok)

                        def rm():
                            delattr(o, p)
                        now = snapshot(o, props)
                        if outcome(rm)[0] == 'ok':
                            raise Mismatch('%s.%s deleted' % (name, p))
                        check(not same(now, snapshot(o, props)),
                              'refused deletion')
                    check(not same(fresh, snapshot(witness, props)),
                          'another object changed', (),
                          same(fresh, snapshot(witness, props)))
                    d = same(dict((k, x) for k, x in fresh.items()
                                  if x[1] is None and is_plain(x[0])),
                             dict((k, x) for k, x in snapshot(
                                 w.make(name), props).items()
                                 if x[1] is None and is_plain(fresh[k][0])))
                    check(not d, 'an object made later', (), d)
                ctx.case('%s.%s %s' % (name, p, lab), one)
    ctx.notes['attributes'] = sum(len(p) for _, _, p in w.table)
    ctx.notes['objects'] = len(w.objects)


def is_plain(v):
    return v is None or isinstance(v, (str, bool))


def sequences(ctx, job):
    """histories of assignments to one object, good and bad ones mixed"""
    w = World()
    depth = 4 if ctx.thorough else 3
    for name, cls, props in w.table:
        ops = []
        for p, kind in props:
            if kind is None:
                continue
            vs = values(w, kind)
            good = [x for x in vs if w.accepted(name, p, kind, x[1])]
            bad = [x for x in vs if w.accepted(name, p, kind, x[1]) is False]
            for lab, v in good[:2] + bad[:1] + bad[-1:]:
                ops.append((p, kind, lab, v))
        for first in shard(ops, job):
            def one():
                for seq in itertools.product(ops, *[
                        ops[::2] if ctx.thorough else ops] * (depth - 2)):
                    ctx.state()
                    o, other = w.make(name), w.make(name)
                    was = snapshot(other, props)
                    for p, kind, lab, v in (first,) + seq:
                        assign(w, o, name, props, p, kind, lab, v)
                        ctx.step()
                    d = same(was, snapshot(other, props))
                    check(not d, 'another object changed by %s' % [
                        (x[0], x[2]) for x in (first,) + seq], (), d)
            ctx.case('%s %s %s' % (name, first[0], first[2]), one)


def decisions(ctx, job):
    """Refused assignments to the parts of a loaded policy change no decision;
    accepted ones change exactly what they say."""
    w = World()
    one_ = target(action=[(Match(F1 + 'string-equal', val('v'),
                                 des('action', 'urn:mc:a')),)])
    cond = Apply(F1 + 'string-equal', (Apply(F1 + 'string-one-and-only', (
        des('action', 'urn:mc:a'),)), val('v')))
    pol = PolicySet('urn:mc:ps', 'first-applicable', one_, (
        Policy('urn:mc:p', 'deny-overrides', None, (
            Rule('urn:mc:r', 'P', None, cond),)),))
    reqs = [request(action=[attr('action', 'v', id='urn:mc:' + i)])
            for i in 'ab']
    want = ['Permit', 'NotApplicable']

    def parts(pdp):
        ps = pdp.policy
        p = ps.policies[0]
        r = p.rules[0]
        a = ps.target.actions[0]
        m = a.matches[0]
        ap = r.condition.expression
        inner = ap.expressions[0]
        return [('PDP', pdp), ('PolicySet', ps), ('Policy', p), ('Rule', r),
                ('Target', ps.target), ('Action', a), ('ActionMatch', m),
                ('ActionAttributeDesignator', m.attributeDesignator),
                ('value string', m.attributeValue),
                ('Condition', r.condition), ('Apply', ap), ('Apply', inner),
                ('ActionAttributeDesignator', inner.expressions[0]),
                ('value string', ap.expressions[1])]
    n = len(parts(build.x_pdp(pol)))
    table = dict((a, (b, c)) for a, b, c in w.table)
    for i in range(n):
        def one():
            pdp, other = build.x_pdp(pol), build.x_pdp(pol)
            req = [build.x_request(r) for r in reqs]

            def now(x):
                return [str(x.evaluate(r).results[0].decision) for r in req]
            check(now(pdp) == want, 'decisions', want, now(pdp))
            name, o = parts(pdp)[i]
            props = table[name][1]
            for p, kind in props:
                for lab, v in values(w, kind):
                    if w.accepted(name, p, kind, v) is not False:
                        continue
                    ctx.state()
                    ctx.step()
                    assign(w, o, name, props, p, kind, lab, v)
                    got = now(pdp)
                    check(got == want, 'decisions after refused %s.%s = %s' % (
                        name, p, lab), want, got)
            check(now(other) == want, 'another decision point', want,
                  now(other))
            ctx.outcome(name)
        ctx.case('part %d' % i, one)
    # accepted changes take effect for the following evaluations
    changes = [
        ('algorithm', lambda x: setattr(x[2][1], 'ruleCombiningAlgId',
                                        RULE_ALG + ALGS[1]), want),
        ('effect', lambda x: setattr(x[3][1], 'effect',
                                     w.objects_by['Deny effect']),
         ['Deny', 'NotApplicable']),
        ('designator id', lambda x: setattr(x[7][1], 'attributeId',
                                            'urn:mc:b'),
         ['NotApplicable', 'Indeterminate']),
        ('match value', lambda x: setattr(x[8][1], 'value', 'w'),
         ['NotApplicable', 'NotApplicable']),
        ('condition value', lambda x: setattr(x[13][1], 'value', 'w'),
         ['NotApplicable', 'NotApplicable']),
        ('match function', lambda x: setattr(
            x[6][1], 'matchId', F1 + 'string-regexp-match'), want),
        ('must be present', lambda x: setattr(x[7][1], 'mustBePresent', True),
         ['Permit', 'Indeterminate']),
        ('issuer', lambda x: setattr(x[7][1], 'issuer', 'me'),
         ['NotApplicable', 'NotApplicable']),
    ]
    w.objects_by = dict(w.objects)
    for n_, f, expect in changes:
        def eff():
            pdp, other = build.x_pdp(pol), build.x_pdp(pol)
            req = [build.x_request(r) for r in reqs]
            f(parts(pdp))
            ctx.state()
            for x, e in ((pdp, expect), (other, want)):
                got = [str(x.evaluate(r).results[0].decision) for r in req]
                check(got == e, 'decisions after change of ' + n_, e, got)
        ctx.case('change ' + n_, eff)


def run(ctx):
    globals()[base(ctx.job)](ctx, ctx.job)
