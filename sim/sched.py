"""Caller threads under a simulator: real threads, parked and released one at a time.

A thread can lose the baton only at a line of the code under test (sys.settrace) or when it
waits for a lock (threading.Lock/RLock are replaced before the code under test is imported).
The plan names the steps at which the baton moves and who gets it; nothing else decides.
"""
import _thread
import sys
import threading

REAL_LOCK = _thread.allocate_lock
SRC = "/repo/rsm/"
_current = None  # the active Scheduler


class Deadlock(Exception):
    pass


class SimLock:
    """A lock whose waiters are visible to the scheduler. Single-threaded use costs nothing."""

    _re = False

    def __init__(self):
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.count and (not self._re or self.owner != me):
            if not blocking or timeout == 0:
                return False
            s = _current
            if s is None or me not in s.index:
                if timeout and timeout > 0:
                    return False
                raise Deadlock("lock already held and nobody is there to release it")
            while self.count:
                s.wait_for(self)
        self.owner, self.count = me, self.count + 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return bool(self.count)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0

    # used by threading.Condition
    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        st = (self.owner, self.count)
        self.owner, self.count = None, 0
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self.owner, self.count = st


class SimRLock(SimLock):
    _re = True


def patch_locks():
    """Before the code under test is imported."""
    threading.Lock = SimLock
    threading.RLock = SimRLock


class Scheduler:
    def __init__(self, bodies, switches, first=0):
        """switches: {global step number: choice}"""
        self.bodies, self.switches = bodies, dict(switches)
        self.n = len(bodies)
        self.sems = [REAL_LOCK() for _ in bodies]
        for s in self.sems:
            s.acquire()
        self.main = REAL_LOCK()
        self.main.acquire()
        self.index = {}
        self.done = [False] * self.n
        self.waiting = [None] * self.n
        self.cur = first % self.n
        self.step = 0
        self.order = []      # (step, from, to)
        self.deadlock = False
        self.results = [None] * self.n

    def runnable(self):
        return [i for i in range(self.n) if not self.done[i] and not (self.waiting[i] is not None and self.waiting[i].count)]

    def hand_to(self, j, me):
        self.order.append((self.step, me, j))
        self.cur = j
        self.sems[j].release()

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(SRC):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.step += 1
            c = self.switches.get(self.step)
            if c is not None:
                me = self.cur
                others = [i for i in self.runnable() if i != me]
                if others:
                    self.hand_to(others[c % len(others)], me)
                    self.sems[me].acquire()
        return self.local

    def wait_for(self, lock):
        me = self.cur
        self.waiting[me] = lock
        others = [i for i in self.runnable() if i != me]
        if not others:
            self.deadlock = True
            raise Deadlock("every thread waits for a lock")
        self.hand_to(others[0], me)
        self.sems[me].acquire()
        self.waiting[me] = None

    def _thread(self, i):
        self.sems[i].acquire()
        self.index[_thread.get_ident()] = i
        sys.settrace(self.trace)
        try:
            self.results[i] = self.bodies[i]()
        finally:
            sys.settrace(None)
            self.done[i] = True
            self.index.pop(_thread.get_ident(), None)
            rest = self.runnable()
            if rest:
                self.hand_to(rest[0], i)
            else:
                if not all(self.done):
                    self.deadlock = True
                self.main.release()

    def run(self):
        global _current
        _current = self
        try:
            for i in range(self.n):
                _thread.start_new_thread(self._thread, (i,))
            self.sems[self.cur].release()
            self.main.acquire()
        finally:
            _current = None
        return self.results


class Stopper:
    """Counts lines of the code under test; raises `exc` at step `at` (an asynchronous interruption)."""

    def __init__(self, at=None, exc=KeyboardInterrupt):
        self.at, self.exc, self.step, self.hit = at, exc, 0, None

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(SRC):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.step += 1
            if self.step == self.at:
                self.hit = f"{frame.f_code.co_filename[len(SRC):]}:{frame.f_lineno} {frame.f_code.co_name}"
                raise self.exc()
        return self.local

    def __enter__(self):
        sys.settrace(self.trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


class Gate(Scheduler):
    """Threads that can also lose the baton at each disk operation (see crowd.run for the modes)."""

    def __init__(self, bodies, lines, mode, rng, first=0):
        super().__init__(bodies, lines, first)
        self.mode, self.rng, self.ops, self.last = mode, rng, 0, {}
        self.at = {k: w for k, w in mode.get("at", [])}
        self.now = {}        # thread -> the operation it is about to perform

    def hand_to(self, j, me):
        self.order.append((self.ops, me, j, *self.now.get(j, ("start", ""))))
        self.cur = j
        self.sems[j].release()

    def op(self, kind, rel):
        """Called by the disk before each operation, in the thread that performs it."""
        if _thread.get_ident() not in self.index:
            return
        me = self.cur
        self.ops += 1
        pick, on = self.at.get(self.ops), self.mode.get("on")
        near = on is None or kind in on or self.last.get(me) in on
        self.last[me], self.now[me] = kind, (kind, rel)
        if pick is None and not ("p" in self.mode and near and self.rng.random() < self.mode["p"]):
            return
        others = [i for i in self.runnable() if i != me]
        if others:
            self.hand_to(others[(pick if pick is not None else self.rng.randrange(len(others))) % len(others)], me)
            self.sems[me].acquire()
