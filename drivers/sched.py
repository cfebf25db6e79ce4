# Controlled scheduling of Python threads: exactly one registered thread runs at a time, and control changes hands only at the
# lines of the traced files, at lock operations and when a thread ends.  The schedule is a function of the decisions given.
import sys, threading
from java.util.concurrent import Semaphore
from java.lang import Thread as JThread
import SchedTrace

_RLock = threading.RLock
_Lock = threading.Lock
current = None      # the scheduler in charge, if any


class SchedLock(object):
    """stands in for threading.RLock / Lock; blocks through the scheduler"""

    def __init__(self, reentrant=True):
        self.owner = None
        self.depth = 0
        self.reentrant = reentrant

    def acquire(self, blocking=1):
        s = current
        me = s.me() if s is not None else None
        if me is None:
            me = 'main'
        else:
            s.point()
        while self.owner is not None and not (self.owner == me and self.reentrant):
            if not blocking:
                return False
            if me == 'main':
                raise RuntimeError('lock held outside the schedule')
            s.block(self)
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        s = current
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
            if s is not None and s.me() is not None:
                s.wake(self)
                if s.problem is None:
                    s.point()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, t, v, tb):
        self.release()

    def _is_owned(self):
        return self.owner is not None


def install():
    threading.RLock = lambda *a, **k: SchedLock(True)
    threading.Lock = lambda *a, **k: SchedLock(False)


def uninstall():
    threading.RLock = _RLock
    threading.Lock = _Lock


class Deadlock(Exception):
    pass


class Killed(BaseException):
    pass


class Scheduler(object):
    """runs the functions in fns as threads; decide(n, current, runnable) -> thread to run next, asked at the points (numbers of
    executed lines of the traced files) given, at lock operations, and when a thread ends or blocks"""

    def __init__(self, fns, decide, points, files, limit=100000):
        self.fns = fns
        self.decide = decide
        self.sems = [Semaphore(0) for f in fns]
        self.done = Semaphore(0)
        self.state = ['ready'] * len(fns)
        self.waiting = [None] * len(fns)
        self.ids = {}
        self.cur = None
        self.problem = None
        SchedTrace.files = files
        SchedTrace.limit = limit
        SchedTrace.callback = self.point
        SchedTrace.reset(points)
        self.limit = limit

    def me(self):
        return self.ids.get(JThread.currentThread().getId())

    def run(self):
        global current
        ts = []
        current = self
        for i in range(len(self.fns)):
            t = threading.Thread(target=self.body, args=(i,))
            t.setDaemon(True)
            ts.append(t)
            t.start()
        self.sems[self.decide(0, None, list(range(len(self.fns))))].release()
        self.done.acquire()
        for t in ts:
            t.join(5)
        current = None
        self.n = SchedTrace.n
        return self.problem

    def body(self, i):
        self.ids[JThread.currentThread().getId()] = i
        self.sems[i].acquire()
        try:
            if self.problem is None:
                SchedTrace.install()
                try:
                    self.fns[i]()
                finally:
                    SchedTrace.remove()
        except Killed:
            pass
        except BaseException as e:
            if self.problem is None:
                self.problem = 'thread failed: %s %s' % (e.__class__.__name__, e)
        self.state[i] = 'done'
        self.next(i)

    def point(self):
        i = self.me()
        if self.problem is not None:
            raise Killed()
        n = SchedTrace.n
        if n > self.limit:
            self.problem = 'no end'
            raise Killed()
        ready = [j for j in range(len(self.fns)) if self.state[j] == 'ready']
        if len(ready) < 2:
            return
        j = self.decide(n, i, ready)
        if j != i:
            self.sems[j].release()
            self.sems[i].acquire()
            if self.problem is not None:
                raise Killed()

    def block(self, lock):
        i = self.me()
        self.state[i] = 'blocked'
        self.waiting[i] = lock
        self.next(i)
        self.sems[i].acquire()
        if self.problem is not None:
            raise Killed()

    def wake(self, lock):
        for j in range(len(self.fns)):
            if self.waiting[j] is lock:
                self.waiting[j] = None
                self.state[j] = 'ready'

    def next(self, i):
        ready = [j for j in range(len(self.fns)) if self.state[j] == 'ready']
        if ready:
            j = self.decide(SchedTrace.n, None, ready) if len(ready) > 1 else ready[0]
            self.sems[j].release()
        elif all(s == 'done' for s in self.state):
            self.done.release()
        else:
            if self.problem is None:
                self.problem = 'deadlock'
            for j in range(len(self.fns)):
                if self.state[j] == 'blocked':
                    self.state[j] = 'ready'
                    self.waiting[j] = None
            self.sems[self.state.index('ready')].release()
