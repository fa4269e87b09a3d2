"""Deterministic scheduler for real threads.

Threads are parked on private semaphores; exactly one runs at a time. A trace
function makes every executed source line (or bytecode) of the package under
test a scheduling point. Which thread goes on is decided by the spec alone.
Locks created by the code under test are replaced by cooperative ones."""
import _thread
import os
import random
import sys
import threading

from session import SimHang

_real_lock = _thread.allocate_lock
_current = None            # the running Scheduler, if any


class SimDeadlock(SimHang):
    """Waiting for a lock that will never be released."""


class SimLock(object):
    """Stands in for threading.Lock / RLock in the code under test."""

    def __init__(self, reentrant=False):
        self._re = reentrant
        self._owner = None
        self._count = 0

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while True:
            if self._owner is None:
                self._owner, self._count = me, 1
                return True
            if self._re and self._owner == me:
                self._count += 1
                return True
            if not blocking:
                return False
            s = _current
            if s is None or not s.is_sim_thread():
                raise SimDeadlock("lock held and no simulation running")
            s.block_on(self)

    __enter__ = acquire

    def release(self):
        if self._owner is None or (self._re and self._owner != self._me()):
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._owner is not None

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == self._me()

    def _release_save(self):
        st = (self._owner, self._count)
        self._owner, self._count = None, 0
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._owner, self._count = st


def patch_locks():
    """Before the code under test is imported."""
    import concurrent.futures, logging, queue, functools, weakref  # noqa
    threading.Lock = lambda: SimLock(False)
    threading.RLock = lambda: SimLock(True)


class Scheduler(object):
    """Scheduling points come from sys.monitoring: every source line, or every
    bytecode, of the package."""

    def __init__(self, bodies, pkgdirs, plan, opcodes=False, limit=3_000_000):
        """plan: dict with any of
             abs:   [[step, target], ...]   switch at these steps
             every: k                       round robin every k steps
             rnd:   [seed, p]               switch with probability p
             at:    [[thread, place, n, target], ...]   switch when a thread is
                    about to execute a place for the n-th time (with nothing
                    else in the plan, only these places are scheduling points)
             record: True                   keep the place of every step
           order: index of the thread that starts"""
        self.n = len(bodies)
        self.bodies = bodies
        self.pkg = tuple(pkgdirs)
        self.opcodes = opcodes
        self.limit = limit
        self.abs = sorted((int(a), int(b)) for a, b in plan.get("abs", []))
        self.abs_i = 0
        self.direct = plan.get("direct", False)
        self.every = plan.get("every")
        self.skip = plan.get("skip", 0)
        rnd = plan.get("rnd")
        self.rng = random.Random("sched|%s" % rnd[0]) if rnd else None
        self.p = rnd[1] if rnd else 0
        self.at = None
        if "at" in plan:
            self.at = {}
            for t, place, n, to in plan["at"]:
                d = self.at.setdefault(place, [{} for _ in bodies])
                if t < self.n:
                    d[t][n] = to
            self.at_seen = {p: [0] * self.n for p in self.at}
        self.record = [{} for _ in bodies] if plan.get("record") else None
        self.first = plan.get("order", 0) % self.n
        self.step = 0
        self.sems = [_real_lock() for _ in bodies]
        for s in self.sems:
            s.acquire()
        self.main = _real_lock()
        self.main.acquire()
        self.state = ["ready"] * self.n
        self.waiting = [None] * self.n
        self.cur = None
        self.idents = {}
        self.trail = []          # (step, from, to, where)
        self.outcomes = [None] * self.n
        self.deadlock = False
        self.max_switches = 1500
        self.codes = {}

    def is_sim_thread(self):
        return _thread.get_ident() in self.idents

    # -- choosing
    def _runnable(self, i):
        if self.state[i] == "ready":
            return True
        if self.state[i] == "blocked":
            return self.waiting[i]._owner is None
        return False

    def _pick(self, me, target):
        cand = [i for i in range(self.n) if i != me and self._runnable(i)]
        if not cand:
            return None
        if self.direct and target is not None:
            return target if target in cand else None
        if target is None:
            # round robin
            return min(cand, key=lambda i: (i - me) % self.n)
        return cand[target % len(cand)]

    def _transfer(self, me, to, where):
        self.trail.append((self.step, me, to, where))
        self.cur = to
        self.sems[to].release()
        self.sems[me].acquire()
        if self.deadlock:
            raise SimDeadlock()

    @staticmethod
    def place(code, pos, opcodes):
        f = os.path.basename(code.co_filename)
        if opcodes:
            return "%s:%s:%d+%d" % (f, code.co_qualname, code.co_firstlineno, pos)
        return "%s:%s:%d" % (f, code.co_qualname, pos)

    def _event(self, code, pos):
        """About to execute a line (or, at pos, a bytecode) of the package."""
        if not code.co_filename.startswith(self.pkg):
            return sys.monitoring.DISABLE
        me = self.cur
        if self.idents.get(_thread.get_ident()) != me:
            return
        place = None
        if self.at is not None:
            place = self.place(code, pos, self.opcodes)
            if place not in self.at:
                return sys.monitoring.DISABLE
        self.step += 1
        if self.step > self.limit:
            raise SimHang()
        target = None
        switch = False
        if self.at is not None:
            seen = self.at_seen[place]
            seen[me] += 1
            if seen[me] in self.at[place][me]:
                switch = True
                target = self.at[place][me][seen[me]]
        while self.abs_i < len(self.abs) and self.abs[self.abs_i][0] <= self.step:
            target = self.abs[self.abs_i][1]
            self.abs_i += 1
            switch = True
        if self.step <= self.skip:
            pass
        elif not switch and self.every and self.step % self.every == 0:
            switch = True
        elif not switch and self.rng is not None and self.rng.random() < self.p:
            switch = True
            target = self.rng.randrange(64)
        if switch and len(self.trail) < self.max_switches:
            to = self._pick(me, target)
            if to is not None:
                self._transfer(me, to, (os.path.basename(code.co_filename), code.co_qualname, pos))

    def _record(self, code, pos):
        c = self.codes.get(id(code))
        if c is None:
            if not code.co_filename.startswith(self.pkg):
                return sys.monitoring.DISABLE
            self.codes[id(code)] = code
        r = self.record[self.cur]
        k = (id(code), pos)
        r[k] = r.get(k, 0) + 1
        self.step += 1
        if self.step > self.limit:
            raise SimHang()

    def recorded(self):
        """Per thread: place -> how often executed."""
        out = []
        for r in self.record:
            d = {}
            for (code, pos), n in r.items():
                k = self.place(self.codes[code], pos, self.opcodes)
                d[k] = d.get(k, 0) + n
            out.append(d)
        return out

    def block_on(self, lock):
        me = self.cur
        self.state[me] = "blocked"
        self.waiting[me] = lock
        to = self._pick(me, None)
        if to is None:
            self.deadlock = True
            raise SimDeadlock()
        self._transfer(me, to, ("lock", "", 0))
        self.state[me] = "ready"
        self.waiting[me] = None

    def hand_over(self):
        """Called by a running thread: the others go on."""
        me = self.cur
        to = self._pick(me, None)
        if to is not None:
            self._transfer(me, to, ("hand over", "", 0))

    # -- threads
    def _thread(self, i):
        self.sems[i].acquire()
        try:
            if self.deadlock:
                raise SimDeadlock()
            self.outcomes[i] = self.bodies[i]()
        except SimDeadlock:
            self.outcomes[i] = ["deadlock"]
        except SimHang:
            self.outcomes[i] = ["hang"]
        except BaseException as e:
            self.outcomes[i] = ["exc", type(e).__name__]
        self.state[i] = "done"
        to = self._pick(i, None)
        if to is None:
            left = [j for j in range(self.n) if self.state[j] != "done"]
            if not left:
                self.main.release()
                return
            self.deadlock = True
            to = left[0]
            self.state[to] = "ready"
        self.cur = to
        self.sems[to].release()

    def run(self):
        """Once per process."""
        global _current
        assert _current is None
        _current = self
        for i in range(self.n):
            started = _real_lock()
            started.acquire()

            def boot(i=i, started=started):
                self.idents[_thread.get_ident()] = i
                started.release()
                self._thread(i)
            _thread.start_new_thread(boot, ())
            started.acquire()
        self.cur = self.first
        # f_trace_opcodes would crash CPython 3.12 with several threads
        mon = sys.monitoring
        ev = mon.events.INSTRUCTION if self.opcodes else mon.events.LINE
        mon.use_tool_id(3, "sim")
        mon.register_callback(3, ev, self._event if self.record is None else self._record)
        mon.set_events(3, ev)
        self.sems[self.first].release()
        done = self.main.acquire(timeout=100)
        mon.set_events(3, 0)
        mon.free_tool_id(3)
        _current = None
        if not done:
            raise RuntimeError("scheduler stalled: a thread blocks outside the simulation")
        return self.outcomes
