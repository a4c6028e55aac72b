"""A controlled scheduler for real threads: exactly one of them runs at a time, and every switch is a recorded choice.

Scheduling points: every line (and call) event of the traced source files, every lock acquisition and release.  The
primitives of the threading module are replaced (install()) before the code under test creates any lock, so waiting is
visible: a thread waiting for a lock is not enabled, and "nobody enabled" is a deadlock.
"""
import _thread
import logging
import sys
import threading

_rawLock = _thread.allocate_lock
_current = None     # the Scheduler of the execution under way


class Abort(BaseException):
    """Unwinds the threads of an execution that is over."""


class SchedLock(object):
    """threading.Lock / RLock under the scheduler; outside an execution a plain single-threaded lock."""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def _me(self):
        s = _current
        me = s.me() if s is not None else None
        return ("main",) if me is None else me

    def acquire(self, blocking=True, timeout=-1):
        s = _current
        me = self._me()
        inside = s is not None and me != ("main",)
        if inside:
            s.point("acquire")
        if self.reentrant and self.count and self.owner == me:
            self.count += 1
            return True
        while self.count:
            if not blocking:
                return False
            if not inside:
                raise RuntimeError("lock held outside of the exploration: it was never released")
            if not s.block(self, timeout is not None and timeout >= 0):
                return False
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None
        s = _current
        if s is not None and self._me() != ("main",):
            s.point("release")

    def _at_fork_reinit(self):
        self.owner = None
        self.count = 0

    def locked(self):
        return bool(self.count)

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()

    # what threading.Condition asks of an RLock
    def _is_owned(self):
        return bool(self.count) and self.owner == self._me()

    def _release_save(self):
        saved, self.count, self.owner = (self.count, self.owner), 0, None
        return saved

    def _acquire_restore(self, saved):
        self.acquire()
        self.count, self.owner = saved


class SchedRLock(SchedLock):
    reentrant = True


def install():
    threading.Lock = SchedLock
    threading.RLock = SchedRLock
    threading._allocate_lock = SchedLock


class Scheduler(object):
    """One execution: bodies run under the choices of prefix, then by default the running thread goes on."""

    def __init__(self, bodies, prefix, traced, horizon=20000):
        self.bodies = bodies
        self.prefix = prefix
        self.traced = traced            # function: code object -> is it a source of scheduling points?
        self.horizon = horizon
        self.n = len(bodies)
        self.batons = [_rawLock() for _ in bodies]
        for b in self.batons:
            b.acquire()
        self.finished = _rawLock()
        self.finished.acquire()
        self.ids = {}
        self.done = [False] * self.n
        self.waiting = [None] * self.n      # the lock a thread waits for
        self.timed = [False] * self.n
        self.timedOut = [False] * self.n
        self.results = [None] * self.n
        self.choices = []       # index into the enabled list, at every point with more than one enabled thread
        self.points = []        # (enabled list, running thread still enabled?)
        self.steps = 0
        self.deadlock = False
        self.overrun = False
        self.diverged = False
        self.aborting = False
        self.left = self.n

    def me(self):
        return self.ids.get(_thread.get_ident())

    def enabled(self):
        return [t for t in range(self.n) if not self.done[t] and (self.waiting[t] is None or not self.waiting[t].count)]

    def choose(self, running):
        """Pick the next thread; running is None when it cannot go on."""
        en = self.enabled()
        if not en:
            for t in range(self.n):
                if not self.done[t] and self.timed[t]:
                    self.timedOut[t] = True
                    return t
            return None
        if running is not None and running in en:
            en.remove(running)
            en.insert(0, running)
        if len(en) == 1:
            return en[0]
        k = len(self.choices)
        if k < len(self.prefix):
            c = self.prefix[k]
            if c >= len(en):
                self.diverged = True
                c = 0
        else:
            c = 0
        self.choices.append(c)
        self.points.append((tuple(en), running is not None and running in en))
        return en[c]

    def point(self, what):
        me = self.ids.get(_thread.get_ident())
        if me is None:
            return
        if self.aborting:
            raise Abort()
        self.steps += 1
        if self.steps > self.horizon:
            self.overrun = True
            self.abort(me)
        nxt = self.choose(me)
        if nxt != me:
            self.switch(me, nxt)

    def switch(self, me, nxt):
        self.batons[nxt].release()
        self.batons[me].acquire()
        if self.aborting:
            raise Abort()

    def block(self, lock, timed):
        """The running thread waits for lock; returns False on a timed wait that ran out."""
        me = self.ids[_thread.get_ident()]
        self.waiting[me] = lock
        self.timed[me] = timed
        nxt = self.choose(None)
        if nxt is None:
            self.deadlock = True
            self.abort(me)
        if nxt != me:
            self.switch(me, nxt)
        self.waiting[me] = None
        self.timed[me] = False
        if self.timedOut[me]:
            self.timedOut[me] = False
            return False
        return True

    def abort(self, me):
        self.aborting = True
        raise Abort()

    def finish(self, me):
        self.done[me] = True
        self.left -= 1
        if self.left == 0:
            self.finished.release()
            return
        if self.aborting:
            nxt = [t for t in range(self.n) if not self.done[t]][0]
        else:
            nxt = self.choose(None)
            if nxt is None:
                self.deadlock = True
                self.aborting = True
                nxt = [t for t in range(self.n) if not self.done[t]][0]
        self.batons[nxt].release()

    def _tracer(self, frame, event, arg):
        if self.traced(frame.f_code):
            self.point("call")
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.point("line")
        return self._local

    def _thread(self, t):
        self.ids[_thread.get_ident()] = t
        self.batons[t].acquire()
        try:
            if not self.aborting:
                sys.settrace(self._tracer)
                try:
                    self.results[t] = self.bodies[t]()
                finally:
                    sys.settrace(None)
        except Abort:
            self.results[t] = ("aborted",)
        except BaseException as err:
            self.results[t] = ("died", type(err).__name__, str(err))
        del self.ids[_thread.get_ident()]
        self.finish(t)

    def run(self):
        global _current
        _current = self
        try:
            for t in range(self.n):
                _thread.start_new_thread(self._thread, (t,))
            first = self.choose(None)
            self.batons[first].release()
            self.finished.acquire()
        finally:
            _current = None
        return self


def explore(make, judge, bound, traced, cap=None):
    """All schedules with at most `bound` preemptions.  make() -> (bodies, observe); judge(scheduler, observe()) -> bool
    (go on?).  Returns (executions, points, capped)."""
    stack = [((), 0)]
    executions = 0
    points = 0
    restarts = 0
    while stack:
        prefix, used = stack.pop()
        # the interpreter's collector may, very rarely, run something in between: such an execution is a real one and is judged,
        # and the recorded schedule is tried again; an execution that never follows its schedule is an error
        for attempt in range(8):
            bodies, observe = make()
            x = Scheduler(bodies, prefix, traced).run()
            executions += 1
            points += len(x.points)
            if not x.diverged and list(x.choices[:len(prefix)]) == list(prefix):
                break
            if not judge(x, observe):
                return executions, points, False
        else:
            # the schedule was recorded from an execution that does not come again: start over
            restarts += 1
            if restarts > 3:
                raise RuntimeError("the execution diverged while replaying a recorded schedule")
            stack = [((), 0)]
            continue
        if not judge(x, observe):
            return executions, points, False
        if cap is not None and executions >= cap:
            return executions, points, True
        more = []
        for i in range(len(prefix), len(x.points)):
            en, still = x.points[i]
            # everything after the prefix took choice 0, so costs nothing
            if used + (1 if still else 0) > bound:
                continue
            for alt in range(1, len(en)):
                more.append((tuple(x.choices[:i]) + (alt,), used + (1 if still else 0)))
        stack.extend(reversed(more))
    return executions, points, False
