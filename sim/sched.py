"""A seeded scheduler for threads.

Real threads run one at a time: the baton changes hands only at instrumented
statements, at I/O seams, when a simulated lock is taken, and when a thread
ends.  Every decision comes from one generator, so one seed is one schedule.
"""

import functools
import threading
import _thread

from . import loader, seams

REAL_LOCK = _thread.allocate_lock
REAL_RLOCK = threading.RLock
ACTIVE = None


class Stuck(BaseException):
    """Every thread waits for a lock."""


class Baton:

    def __init__(self, rng, rate, focus=None):
        self.rng = rng
        self.rate = rate
        self.focus = focus      # share of places that attract switches
        self.hot = {}
        self.steps = 0
        self.switches = 0
        self.trace = []
        self.parked = set()
        self.current = None
        self.gap = self._gap()
        self.deadlock = False

    def _gap(self):
        # geometric number of points until the next switch
        n = 1
        r = self.rng.random()
        if self.rate >= 1.0:
            return 1
        import math
        n = 1 + int(math.log(max(1e-12, 1 - r))/math.log(1 - self.rate))
        return n

    def run(self, tasks):
        """Run the tasks to their end under this schedule."""
        global ACTIVE
        n = len(tasks)
        self.gates = [REAL_LOCK() for _ in range(n)]
        for gate in self.gates:
            gate.acquire()
        self.alive = set(range(n))
        self.idents = {}
        done = REAL_LOCK()
        done.acquire()
        results = [None]*n
        errors = [None]*n

        def body(i):
            self.gates[i].acquire()
            self.idents[_thread.get_ident()] = i
            try:
                results[i] = tasks[i]()
            except BaseException as err:
                errors[i] = err
            self.alive.discard(i)
            if self.alive:
                ready = self.alive - self.parked
                if not ready:
                    # every other thread waits for a lock: let one find out
                    self.parked.clear()
                    self.deadlock = True
                    ready = self.alive
                self._give(self.rng.choice(sorted(ready)))
            else:
                done.release()

        for i in range(n):
            _thread.start_new_thread(body, (i,))
        ACTIVE = self
        previous = loader.CONTROL.handler
        loader.CONTROL.handler = self.point
        loader.CONTROL.armed = True
        seams.SEAM.yield_hook = self.at_seam
        self._give(self.rng.choice(range(n)))
        done.acquire()
        loader.CONTROL.armed = False
        loader.CONTROL.handler = previous
        seams.SEAM.yield_hook = None
        ACTIVE = None
        return results, errors

    def _give(self, i):
        self.current = i
        self.gates[i].release()

    def switch(self, where):
        others = sorted(self.alive - self.parked - {self.current})
        if not others:
            return
        me = self.current
        to = self.rng.choice(others)
        self.switches += 1
        if len(self.trace) < 4000:
            self.trace.append((me, to, where))
        self._give(to)
        self.gates[me].acquire()

    def point(self, n):
        self.steps += 1
        self.gap -= 1
        go = self.gap <= 0
        if go:
            self.gap = self._gap()
        elif self.focus:
            hot = self.hot.get(n)
            if hot is None:
                hot = self.hot[n] = loader.SHARED[n] and (
                    self.rng.random() < self.focus)
            go = hot and self.rng.random() < 0.5
        if go:
            if _thread.get_ident() in self.idents:
                self.switch(loader.POINTS[n])

    def at_seam(self, name):
        if _thread.get_ident() in self.idents and self.rng.random() < 0.3:
            self.switch(name)

    def blocked(self):
        """The running thread cannot take a lock: let others run."""
        if self.deadlock or not self.alive - self.parked - {self.current}:
            self.deadlock = True
            raise Stuck('no thread can go on')
        self.parked.add(self.current)
        self.switch('lock')

    def freed(self):
        """Some lock was released: waiting threads may try again."""
        self.parked.clear()


class Lock:
    """Stands in for threading.Lock and RLock in code under simulation."""

    def __init__(self, reentrant=False):
        self._owner = None
        self._count = 0
        self._reentrant = reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self._count and not (self._reentrant and self._owner == me):
            if not blocking:
                return False
            if ACTIVE is None or me not in ACTIVE.idents:
                raise Stuck('a lock is held outside the simulation')
            ACTIVE.blocked()
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if not self._count:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            if ACTIVE is not None:
                ACTIVE.freed()

    def locked(self):
        return bool(self._count)

    _is_owned = locked

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()


def new_lock():
    return Lock()


def new_rlock():
    return Lock(True)


class patched:
    """While goats is imported, its locks are simulated ones."""

    def __enter__(self):
        self.saved = (threading.Lock, threading.RLock,
                      getattr(functools, 'RLock', None))
        threading.Lock = new_lock
        threading.RLock = new_rlock
        if self.saved[2] is not None:
            functools.RLock = new_rlock

    def __exit__(self, *exc):
        threading.Lock, threading.RLock = self.saved[:2]
        if self.saved[2] is not None:
            functools.RLock = self.saved[2]
