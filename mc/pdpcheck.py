"""Driving the real PDP against the reference model."""
import itertools
import logging

from mc import build, dress, spec
from mc.core import Mismatch, check

ROOT = logging.getLogger()


class Requests(object):
    """Abstract requests with lazily built, reused library objects."""

    def __init__(self):
        self.cache = {}

    def get(self, req, variant):
        k = (req, variant)
        o = self.cache.get(k)
        if o is None:
            if len(self.cache) > 4000:
                self.cache.clear()
            o = (build.x_request(req) if variant == 'x' else
                 build.o_request(req))
            self.cache[k] = o
        return o


def shard(it, job):
    """job name 'name:i/n' selects every n-th item."""
    if ':' not in job:
        return iter(it)
    i, n = job.split(':')[1].split('/')
    return itertools.islice(it, int(i), None, int(n))


def edges(n):
    """Positions in a long list: both ends, the middle and around the sizes a
    buffer, cache or counter may have."""
    return sorted({p + d for p in (0, 32, 50, 64, 100, 128, 256, 500, 512, 1000,
                                   1024, n // 2, n - 1) for d in (-1, 0, 1)
                   if 0 <= p + d < n})


def base(job):
    return job.split(':')[0]


def run_policy(ctx, p, reqs, cache, variants=('x', 'o'), style=build.PLAIN,
               defs=None, finder=None, passes=2, modelenv=None, prepare=None,
               pdps=None):
    """Evaluate p on every request: forward with logging off on reused request
    objects, then backward with debug logging on fresh ones; every decision has
    to be one the reference semantics allows, and the same every time."""
    allowed = [spec.decide(p, modelenv(r) if modelenv else r, defs)
               for r in reqs]
    for v in variants:
        if pdps is not None:
            pdp = pdps[v]
        elif v == 'x':
            pdp = build.x_pdp(p, style, finder)
        else:
            pdp = build.o_pdp(p, defs)
        seen = [None] * len(reqs)
        for ps in range(passes):
            order = range(len(reqs)) if ps == 0 else range(len(reqs) - 1, -1, -1)
            ROOT.setLevel(logging.DEBUG if ps == 1 else logging.CRITICAL)
            try:
                for i in order:
                    if ps == 0:
                        ro = cache.get(reqs[i], v)
                    else:
                        ro = build.o_request(reqs[i])
                    if prepare:
                        prepare(ro, reqs[i])
                    d = build.decision_of(pdp.evaluate(ro))
                    ctx.step()
                    if d not in allowed[i]:
                        raise Mismatch(
                            'decision of %r for %r (%s, pass %d)' % (
                                p, reqs[i], v, ps), sorted(allowed[i]), d)
                    if seen[i] is None:
                        seen[i] = d
                        ctx.outcome(d)
                    elif seen[i] != d:
                        raise Mismatch(
                            'decision of %r for %r changed between '
                            'evaluations (%s)' % (p, reqs[i], v), seen[i], d)
            finally:
                ROOT.setLevel(logging.CRITICAL)
    ctx.state(len(reqs))
    if not (defs or finder or modelenv or prepare or pdps or
            dress.references(p)):
        dressed(ctx, p, reqs, cache)
    return allowed


DRESS = itertools.count()


def dressed(ctx, p, reqs, cache):
    """The same policy and requests in features that decide nothing."""
    k = next(DRESS)
    q = dress.POLICIES[k % len(dress.POLICIES)](p)
    pdp = build.lib().PDP(dress.describe(build.o_policy(q), k))
    step = 1 if len(reqs) < 12 else 1 + len(reqs) // 12
    for i, r in enumerate(reqs[k % step::step]):
        r = dress.REQUESTS[(k + i) % len(dress.REQUESTS)](r)
        want = spec.decide(q, r)
        got = build.decision_of(pdp.evaluate(cache.get(r, 'o')))
        ctx.step()
        if got not in want:
            raise Mismatch('decision of %r for %r (dressed)' % (q, r),
                           sorted(want), got)
