"""A controlled scheduler: threads run one at a time and are switched at chosen lines (or opcodes) of the library.

Every thread traces itself; at each traced line of the library (and of the
copy module it relies on) the running thread asks the strategy who goes on and
hands over the baton.  If the running thread cannot go on (it waits for a lock
held by a preempted one), the waiting threads notice the lack of progress and
the rest of the run is left to the interpreter.
"""
import copy
import hashlib
import sys
import threading

from . import boot

COPY = copy.__file__
STUCK = 0.4


class RandomSwitch:
    """At every point: with probability p go on with another thread."""

    def __init__(self, rng, n, p):
        self.rng, self.p = rng, p

    def first(self, alive):
        return self.rng.choice(alive)

    def next(self, i, count, alive):
        return self.rng.choice(alive) if self.rng.random() < self.p else i


class Preempt:
    """Thread by thread, but at its k-th point a thread is preempted until all others are finished (or preempted)."""

    def __init__(self, rng, n, at, order=None):
        self.rng, self.at, self.done = rng, at, set()
        self.order = order or list(range(n))
        if order is None:
            rng.shuffle(self.order)

    def first(self, alive):
        return min(alive, key=self.order.index)

    def next(self, i, count, alive):
        if i not in self.done and count == self.at[i]:
            self.done.add(i)
            self.order.remove(i)
            self.order.append(i)
            return min(alive, key=self.order.index)
        return i


class Priorities:
    """PCT: random priorities, lowered at random points."""

    def __init__(self, rng, n, length, changes):
        self.prio = list(range(10, 10 + n))
        rng.shuffle(self.prio)
        self.points = {rng.randrange(max(1, length)): j for j in range(changes)}
        self.total = 0

    def first(self, alive):
        return max(alive, key=lambda j: self.prio[j])

    def next(self, i, count, alive):
        c = self.points.get(self.total)
        self.total += 1
        if c is not None:
            self.prio[i] = c
        return max(alive, key=lambda j: self.prio[j])


class Run:
    def __init__(self, programs, strategy, opcodes=False, copies=False):
        self.programs, self.strategy, self.opcodes, self.copies = programs, strategy, opcodes, copies
        n = len(programs)
        self.locks = [threading.Lock() for _ in range(n)]
        for lock in self.locks:
            lock.acquire()
        self.alive = list(range(n))
        self.results = [None] * n
        self.counts = [0] * n
        self.progress = 0
        self.free = strategy is None
        self.switches = 0
        self.trail = hashlib.blake2b(digest_size=8)
        self.where = set()

    def point(self, i, frame):
        if self.free:
            return
        self.progress += 1
        c = self.counts[i]
        self.counts[i] = c + 1
        j = self.strategy.next(i, c, self.alive)
        if j != i:
            here = (i, j, frame.f_code.co_name, frame.f_lineno)
            self.trail.update(repr(here).encode())
            self.where.add(here[2:])
            self.switches += 1
            self.locks[j].release()
            self.wait(i)

    def wait(self, i):
        seen = -1
        while not self.locks[i].acquire(timeout=STUCK):
            if self.free or seen == self.progress:
                self.free = True
                return
            seen = self.progress

    def body(self, i):
        def local(frame, event, arg):
            if event == ('opcode' if self.opcodes else 'line'):
                self.point(i, frame)
            return local

        def tracer(frame, event, arg):
            f = frame.f_code.co_filename
            if f.startswith(boot.PKG) or f == COPY and self.copies:
                if self.opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None

        if self.strategy is not None:
            self.wait(i)
            sys.settrace(tracer)
        try:
            self.results[i] = self.programs[i]()
        except BaseException as e:          # the harness part of a program failed
            self.results[i] = e
        finally:
            sys.settrace(None)
            if self.strategy is not None:
                self.progress += 1
                self.alive.remove(i)
                if self.alive and not self.free:
                    self.locks[self.strategy.first(self.alive)].release()

    def go(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.programs))]
        for t in ts:
            t.start()
        if self.strategy is not None:
            self.locks[self.strategy.first(self.alive)].release()
        for t in ts:
            t.join()
        for r in self.results:
            if isinstance(r, BaseException):
                raise r
        return self.results


def length(program, opcodes=False, copies=False):
    """How many scheduling points a program has when it runs alone."""
    r = Run([program], RandomSwitch(None, 1, -1), opcodes, copies)
    r.strategy.first = lambda alive: alive[0]
    r.strategy.next = lambda i, c, alive: i
    r.go()
    return r.counts[0]
