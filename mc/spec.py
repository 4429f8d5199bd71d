"""Reference model: abstract syntax of policies and requests and their XACML
2.0 semantics.  Independent of the implementation (imports nothing from it).

Decisions: 'P' Permit, 'D' Deny, 'I' Indeterminate, 'N' NotApplicable.
Evaluation returns the *set* of decisions the semantics allow: whenever an
expression fails, both eager evaluation (the failure is seen) and the
evaluation order-independent XACML reading (a failure is masked by a False /
True sibling that already settles the outcome) are allowed."""
import collections
import itertools
import re

XS = 'http://www.w3.org/2001/XMLSchema#'
TYPE = {
    'string': XS + 'string', 'anyURI': XS + 'anyURI', 'integer': XS + 'integer',
    'boolean': XS + 'boolean', 'double': XS + 'double', 'date': XS + 'date',
    'dateTime': XS + 'dateTime', 'time': XS + 'time',
    'dayTimeDuration':
        'http://www.w3.org/TR/2002/WD-xquery-operators-20020816#dayTimeDuration',
    'yearMonthDuration':
        'http://www.w3.org/TR/2002/WD-xquery-operators-20020816#yearMonthDuration',
    'x500Name': 'urn:oasis:names:tc:xacml:1.0:data-type:x500Name',
    'rfc822Name': 'urn:oasis:names:tc:xacml:1.0:data-type:rfc822Name',
    'hexBinary': XS + 'hexBinary', 'base64Binary': XS + 'base64Binary',
    'ipAddress': 'urn:oasis:names:tc:xacml:2.0:data-type:ipAddress',
    'dnsName': 'urn:oasis:names:tc:xacml:2.0:data-type:dnsName',
}
F1 = 'urn:oasis:names:tc:xacml:1.0:function:'
F2 = 'urn:oasis:names:tc:xacml:2.0:function:'
RULE_ALG = 'urn:oasis:names:tc:xacml:1.0:rule-combining-algorithm:'
POLICY_ALG = 'urn:oasis:names:tc:xacml:1.0:policy-combining-algorithm:'
ALGS = ('deny-overrides', 'permit-overrides', 'first-applicable')
ID = {'subject': 'urn:oasis:names:tc:xacml:1.0:subject:subject-id',
      'resource': 'urn:oasis:names:tc:xacml:1.0:resource:resource-id',
      'action': 'urn:oasis:names:tc:xacml:1.0:action:action-id',
      'environment': 'urn:oasis:names:tc:xacml:1.0:environment:current-time'}
SECTIONS = ('subject', 'resource', 'action', 'environment')
ACCESS_SUBJECT = 'urn:oasis:names:tc:xacml:1.0:subject-category:access-subject'
DECISION = {'P': 'Permit', 'D': 'Deny', 'I': 'Indeterminate',
            'N': 'NotApplicable'}

Val = collections.namedtuple('Val', 'type value')
Des = collections.namedtuple('Des', 'cat id type issuer mbp')
Sel = collections.namedtuple('Sel', 'path type mbp')
Apply = collections.namedtuple('Apply', 'fn args')
Match = collections.namedtuple('Match', 'fn val ref')
Rule = collections.namedtuple('Rule', 'id effect target cond')
Policy = collections.namedtuple('Policy', 'id alg target rules')
PolicySet = collections.namedtuple('PolicySet', 'id alg target children')
PolicyRef = collections.namedtuple('PolicyRef', 'id')
PolicySetRef = collections.namedtuple('PolicySetRef', 'id')
Attr = collections.namedtuple('Attr', 'id type issuer values')
Request = collections.namedtuple('Request',
                                 'subjects resources action environment')
# subjects: ((category, (Attr, ...)), ...); resources: ((content, (Attr, ...)),
# ...); action, environment: (Attr, ...) or None
# target: None or 4-tuple (subjects, resources, actions, environments) of
# tuples of entries, each entry a tuple of Match


class Fail(Exception):
    """Evaluation of an expression fails."""


E = 'E'
BagV = collections.namedtuple('BagV', 'type items')   # items: python values
CUSTOM = {}     # function id -> python callable(*values) for custom functions


def des(cat, value_id=None, type='string', issuer=None, mbp=False):
    return Des(cat, value_id or ID[cat], type, issuer, mbp)


def val(v, type='string'):
    return Val(type, v)


def fn1(n):
    return F1 + n


def fn2(n):
    return F2 + n


def attr(cat, *values, **kw):
    return Attr(kw.get('id') or ID[cat], kw.get('type', 'string'),
                kw.get('issuer'), tuple(values))


def simple_match(cat, value, fn=None, **kw):
    return Match(fn or F1 + 'string-equal', val(value), des(cat, **kw))


def target(subject=(), resource=(), action=(), environment=()):
    return (tuple(subject), tuple(resource), tuple(action), tuple(environment))


def request(subject=(), resource=(), action=(), environment=()):
    """One subject, one resource, each with the given attributes."""
    return Request(((ACCESS_SUBJECT, tuple(subject)),),
                   ((None, tuple(resource)),), tuple(action),
                   tuple(environment))


def attrs_of(req, cat):
    if cat == 'subject':
        return [a for s in req.subjects for a in s[1]]
    if cat == 'resource':
        return [a for r in req.resources for a in r[1]]
    a = req.action if cat == 'action' else req.environment
    if a is None:
        raise Fail('no %s in the request' % cat)
    return list(a)


def bag_of(d, req, pip=None):
    """Values selected by a designator (order of appearance)."""
    items = []
    if d.cat == 'subject':
        for s in req.subjects:
            for a in s[1]:
                if match_attr(d, a):
                    items.extend(a.values)
            if pip is not None:
                got = pip(d)
                items.extend(v for v in got if not items or v not in items)
    else:
        for a in attrs_of(req, d.cat):
            if match_attr(d, a):
                items.extend(a.values)
    if not items and d.mbp:
        raise Fail('missing attribute')
    return BagV(d.type, tuple(items))


def match_attr(d, a):
    return (a.id == d.id and a.type == d.type and
            (d.issuer is None or a.issuer == d.issuer))


class Env(object):
    """What an evaluation may consult besides the request attributes."""

    def __init__(self, req, pip=None, select=None):
        self.req, self.pip, self.select = req, pip, select


def eval_expr(e, env):
    """Set of possible values of e; E for failure."""
    if isinstance(e, Val):
        return {e}
    if isinstance(e, Des):
        try:
            return {bag_of(e, env.req, env.pip)}
        except Fail:
            return {E}
    if isinstance(e, Sel):
        try:
            if env.select is None:
                raise Fail('no selector')
            items = env.select(e.path)
            if not items and e.mbp:
                raise Fail('missing attribute')
            return {BagV(e.type, tuple(items))}
        except Fail:
            return {E}
    out = set()
    for combo in itertools.product(*[sorted(eval_expr(a, env), key=repr)
                                     for a in e.args]):
        if any(isinstance(c, str) and c == E for c in combo):
            out.add(E)
            if e.fn == F1 + 'and' and any(c is False for c in combo):
                out.add(False)
            continue
        try:
            out.add(call(e.fn, combo))
        except Fail:
            out.add(E)
    return out


STD = re.compile(r'urn:oasis:names:tc:xacml:([12]\.0):function:(.*)$')


def call(fid, args):
    """Semantics of the supported standard functions, and of CUSTOM ones."""
    if fid in CUSTOM:
        return CUSTOM[fid](*args)
    m = STD.match(fid)
    if not m:
        raise KeyError(fid)
    name = m.group(2)
    if name == 'and':
        if not all(isinstance(a, bool) for a in args):
            raise Fail('and: non boolean')
        return all(args)
    if name == 'not':
        if len(args) != 1 or not isinstance(args[0], bool):
            raise Fail('not')
        return not args[0]
    for suffix in ('-regexp-match', '-one-and-only', '-at-least-one-member-of',
                   '-concatenate', '-equal', '-match', '-bag'):
        if name.endswith(suffix):
            t = name[:-len(suffix)]
            t = {'url-string': 'anyURI', 'xpath-node': 'string'}.get(t, t)
            break
    else:
        raise KeyError(fid)
    if suffix == '-bag':
        for a in args:
            need_val(a, t)
        return BagV(t, tuple(a.value for a in args))
    if suffix == '-concatenate':
        if len(args) < 2:
            raise Fail('concatenate')
        need_val(args[0], t)
        for a in args[1:]:
            need_val(a, 'string')
        return Val(t, ''.join(a.value for a in args))
    if suffix == '-one-and-only':
        nargs(args, 1)
        need_bag(args[0], t)
        if len(args[0].items) != 1:
            raise Fail('one-and-only')
        return Val(t, args[0].items[0])
    nargs(args, 2)
    if suffix == '-at-least-one-member-of':
        need_bag(args[0], t)
        need_bag(args[1], t)
        return any(x == y for x in args[0].items for y in args[1].items)
    need_val(args[0], t)
    need_val(args[1], t)
    if suffix in ('-equal', '-match'):
        return args[0].value == args[1].value
    if suffix == '-regexp-match':
        try:
            return re.match(args[0].value, args[1].value) is not None
        except re.error:
            raise Fail('bad pattern')
    raise KeyError(fid)


def nargs(args, n):
    if len(args) != n:
        raise Fail('%d arguments' % len(args))


def need_val(a, t):
    if not isinstance(a, Val) or a.type != t:
        raise Fail('type')


def need_bag(a, t):
    if not isinstance(a, BagV) or a.type != t:
        raise Fail('bag type')


# -- targets: sets over {'T', 'F', 'E'} -------------------------------------
def eval_match(m, env):
    out = set()
    for b in eval_expr(m.ref, env) if m.ref is not None else {E}:
        if b == E:
            out.add(E)
            continue
        res = []
        for v in b.items:
            try:
                r = call(m.fn, (m.val, Val(b.type, v)))
                res.append(('T' if r else 'F') if isinstance(r, bool) else E)
            except Fail:
                res.append(E)
        if E in res:
            out.add(E)
            if 'T' in res:
                out.add('T')
        else:
            out.add('T' if 'T' in res else 'F')
    return out


def conj(sets):
    out = set()
    for combo in itertools.product(*sets):
        if E in combo:
            out.add(E)
            if 'F' in combo:
                out.add('F')
        else:
            out.add('F' if 'F' in combo else 'T')
    return out


def disj(sets):
    out = set()
    for combo in itertools.product(*sets):
        if E in combo:
            out.add(E)
            if 'T' in combo:
                out.add('T')
        else:
            out.add('T' if 'T' in combo else 'F')
    return out


def eval_target(t, env):
    if t is None:
        return {'T'}
    secs = []
    for entries in t:
        if entries:
            secs.append(disj([conj([eval_match(m, env) for m in entry])
                              for entry in entries]))
    return conj(secs)


# -- rules and policies ------------------------------------------------------
def eval_cond(c, env):
    if c is None:
        return {'T'}
    out = set()
    for v in eval_expr(c, env):
        if isinstance(v, Val) and v.type == 'boolean':
            v = v.value
        out.add(('T' if v else 'F') if isinstance(v, bool) else E)
    return out


def eval_rule(r, env):
    out = set()
    for t in eval_target(r.target, env):
        if t == 'F':
            out.add('N')
        elif t == E:
            out.add('I')
        else:
            for c in eval_cond(r.cond, env):
                out.add({'T': r.effect, 'F': 'N', E: 'I'}[c])
    return out


def combine_rules(alg, pairs):
    """pairs: (decision, effect of the rule)."""
    ds = [d for d, _ in pairs]
    if alg == 'first-applicable':
        for d in ds:
            if d != 'N':
                return d
        return 'N'
    win, lose = ('D', 'P') if alg == 'deny-overrides' else ('P', 'D')
    if win in ds:
        return win
    if ('I', win) in pairs:
        return 'I'
    if lose in ds:
        return lose
    return 'I' if 'I' in ds else 'N'


def combine_policies(alg, ds):
    if alg == 'first-applicable':
        for d in ds:
            if d != 'N':
                return d
        return 'N'
    if alg == 'deny-overrides':
        if 'D' in ds or 'I' in ds:
            return 'D'
        return 'P' if 'P' in ds else 'N'
    for d in ('P', 'D', 'I'):
        if d in ds:
            return d
    return 'N'


def lookup(ref, env_defs):
    return env_defs[(type(ref).__name__, ref.id)]


def decide(p, env, defs=None):
    """Set of allowed decisions of a policy or policy set."""
    if isinstance(env, Request):
        env = Env(env)
    if isinstance(p, (PolicyRef, PolicySetRef)):
        p = lookup(p, defs)
    out = set()
    for t in eval_target(p.target, env):
        if t == 'F':
            out.add('N')
        elif t == E:
            out.add('I')
        elif isinstance(p, Policy):
            for combo in itertools.product(*[sorted(eval_rule(r, env))
                                             for r in p.rules]):
                out.add(combine_rules(
                    p.alg, [(d, r.effect) for d, r in zip(combo, p.rules)]))
        else:
            for combo in itertools.product(*[sorted(decide(c, env, defs))
                                             for c in p.children]):
                out.add(combine_policies(p.alg, list(combo)))
    return out
