"""Explorer plumbing shared by all checks: counting, outcome recording,
per-case watchdog, violation recording, replay of one recorded case.

Every check enumerates a bounded space completely and calls ctx.case(key, fn)
once per model trace; fn drives the real implementation and compares it with
the reference model.  Whatever the code under test raises is an observation,
never a crash of the harness."""
import collections
import json
import signal
import time
import traceback


class Hang(BaseException):
    """Watchdog: one execution of the code under test didn't terminate."""


class Mismatch(Exception):
    """The implementation disagrees with the reference model."""

    def __init__(self, what, expected=None, got=None):
        Exception.__init__(self, what)
        self.what, self.expected, self.got = what, expected, got


class StopJob(BaseException):
    """Enough violations recorded."""


MAX_VIOLATIONS = 15
CASE_SECONDS = 40


class Ctx(object):
    def __init__(self, prop, job, mode, tier, seed, scratch, only=None):
        self.prop, self.job, self.mode = prop, job, mode
        self.tier, self.seed, self.scratch, self.only = tier, seed, scratch, only
        self.thorough = tier == 'thorough'
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = collections.Counter()
        self.samples = []
        self.violations = []
        self.notes = {}
        self._keys = set()
        self._nsampled = 0
        self._running = False

    # -- counting ---------------------------------------------------------
    def state(self, n=1):
        self.states += n
        if self._running:
            # one execution of a case that consists of many
            signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)

    def step(self, n=1):
        self.transitions += n

    def outcome(self, o):
        self.outcomes[str(o)] += 1

    def sample(self, obj):
        # first cases, then ever sparser ones
        self._nsampled += 1
        n = self._nsampled
        if n in (1, 10, 100, 1000, 10000, 100000):
            self.samples.append(obj)

    # -- cases ------------------------------------------------------------
    def case(self, key, fn, *args):
        """Run one model trace on the implementation."""
        key = str(key)
        if self.only is not None and key != self.only:
            return
        self.traces += 1
        self._running = True
        signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
        try:
            fn(*args)
        except Mismatch as e:
            self._violation(key, e.what, e.expected, e.got, '')
        except Hang:
            self._violation(key, 'execution did not terminate within %d s'
                            % CASE_SECONDS, None, None, traceback.format_exc())
        except Exception as e:
            self._violation(key, 'unexpected %s: %s' % (type(e).__name__, e),
                            None, None, traceback.format_exc())
        finally:
            self._running = False
            signal.setitimer(signal.ITIMER_REAL, 0)

    def _violation(self, key, what, expected, got, tb):
        self.violations.append(dict(
            property=self.prop, job=self.job, mode=self.mode, tier=self.tier,
            seed=self.seed, key=key, what=str(what)[:2000],
            expected=_plain(expected), got=_plain(got), traceback=tb[-3000:]))
        if len(self.violations) >= MAX_VIOLATIONS:
            raise StopJob()

    def result(self, wall):
        return dict(job=self.job, mode=self.mode, states=self.states,
                    transitions=self.transitions, traces=self.traces,
                    outcomes=dict(self.outcomes.most_common(60)),
                    n_outcomes=len(self.outcomes),
                    samples=[_plain(s) for s in self.samples][:6],
                    violations=self.violations, notes=self.notes, wall=wall)


def _plain(o):
    try:
        json.dumps(o)
        return o
    except (TypeError, ValueError):
        return repr(o)


def install_watchdog():
    def handler(signum, frame):
        raise Hang()
    signal.signal(signal.SIGALRM, handler)


def check(cond, what, expected=None, got=None):
    if not cond:
        raise Mismatch(what, expected, got)


def observe(fn, *args, **kw):
    """('ok', value) or ('raise', exception class name)."""
    try:
        return ('ok', fn(*args, **kw))
    except Exception as e:
        return ('raise', type(e).__name__)


def raises(fn, *args, **kw):
    try:
        fn(*args, **kw)
    except Exception as e:
        return e
    return None
