"""Controlled scheduler: runs threads of real code one at a time and switches
between them only where a schedule says so.  A scheduling point is every line
(or every bytecode instruction) executed in the code under test.

A schedule is a list of (thread, steps): run that thread for that many
scheduling points; afterwards the threads are run to their end one after the
other, in the order given.  A thread that blocks on a lock held by a paused one
is left to itself, i.e. the schedule goes on without it."""
import os
import sys
import threading

from mc.core import Mismatch

INF = float('inf')
BLOCKED_AFTER = 0.4


class Task(object):
    __slots__ = ('fn', 'gate', 'reached', 'n', 'limit', 'done', 'result',
                 'thread', 'started', 'free')

    def __init__(self, fn):
        self.fn = fn
        self.gate = threading.Semaphore(0)
        self.reached = threading.Semaphore(0)
        self.n = 0
        self.limit = 0
        self.done = False
        self.started = False
        self.free = False
        self.result = None


class Scheduler(object):
    def __init__(self, opcodes=False):
        self.opcodes = opcodes
        self.simple = {}
        self.prefix = os.path.realpath(os.environ['MC_REPO']) + os.sep
        self.known = {}
        self.blocked = 0
        self.points = 0

    def mine(self, code):
        f = code.co_filename
        k = self.known.get(f)
        if k is None:
            k = self.known[f] = os.path.realpath(f).startswith(self.prefix)
        return k

    def accessor(self, code):
        """Functions of a single line: no scheduling points of their own (except
        in instruction mode)."""
        k = self.simple.get(code)
        if k is None:
            lines = set(l for _, _, l in code.co_lines() if l is not None)
            k = self.simple[code] = len(lines - {code.co_firstlineno}) <= 1
        return k

    def body(self, task):
        mine, opcodes = self.mine, self.opcodes
        event_name = 'opcode' if opcodes else 'line'

        def local(frame, event, arg):
            if event == event_name:
                task.n += 1
                if task.n > task.limit:
                    task.reached.release()
                    task.gate.acquire()
            return local

        def glob(frame, event, arg):
            if mine(frame.f_code):
                if not opcodes and self.accessor(frame.f_code):
                    return None
                if opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None

        def run():
            task.gate.acquire()
            sys.settrace(glob)
            try:
                task.result = ('ok', task.fn())
            except Exception as e:
                task.result = ('raise', e)
            finally:
                sys.settrace(None)
                task.done = True
                task.reached.release()
        return run

    def execute(self, fns, schedule, order=None):
        """Results of the threads, and how many scheduling points each had."""
        tasks = [Task(fn) for fn in fns]
        for t in tasks:
            t.thread = threading.Thread(target=self.body(t), daemon=True)
            t.thread.start()
        try:
            for i, steps in schedule:
                self.advance(tasks[i], tasks[i].n + steps if steps != INF else INF)
            for i in (order or range(len(tasks))):
                self.advance(tasks[i], INF)
            for t in tasks:
                t.thread.join(30)
                if t.thread.is_alive():
                    raise Mismatch('threads don\'t terminate (deadlock)')
        finally:
            for t in tasks:
                t.limit = INF
                t.gate.release()
        self.points += sum(t.n for t in tasks)
        return [t.result for t in tasks], [t.n for t in tasks]

    def advance(self, t, limit):
        if t.done or t.free:
            return
        t.limit = limit
        t.gate.release()
        if not t.reached.acquire(timeout=BLOCKED_AFTER):
            # blocked on something another (paused) thread holds
            t.free = True
            t.limit = INF
            t.gate.release()        # in case it paused just now
            self.blocked += 1


def counts(sched, scenario):
    """Scheduling points of each thread when run alone, one after another."""
    fns, verify = scenario()
    res, n = sched.execute(fns, [])
    verify(res)
    return n


def two(na, nb, bound):
    """All schedules of two threads with at most that many preemptions; (the
    thread that runs first is also switched)."""
    yield []
    yield [(1, INF)]
    if bound >= 1:
        for i in range(1, na):
            yield [(0, i), (1, INF)]
        for j in range(1, nb):
            yield [(1, j), (0, INF)]
    if bound >= 2:
        for i in range(1, na):
            for j in range(1, nb):
                yield [(0, i), (1, j), (0, INF)]
                yield [(1, j), (0, i), (1, INF)]


def three(n, bound):
    """Schedules of three threads: one preemption each of up to two threads,
    in every order."""
    import itertools
    for a, b, c in itertools.permutations(range(3)):
        yield [(a, INF), (b, INF), (c, INF)]
        for i in range(1, n[a]):
            yield [(a, i), (b, INF), (c, INF), (a, INF)]
            if bound >= 2:
                for j in range(1, n[b]):
                    yield [(a, i), (b, j), (c, INF), (a, INF)]
                    yield [(a, i), (b, j), (c, INF), (b, INF)]
