"""Deterministic scheduling of real threads.

Only the thread that holds the baton runs.  The baton can move at any line (or
byte code) event of library code and at every operation on a lock created
through the `threading` module by the library.  Where it moves is decided by
the plan: a list of [gap, target] pairs - after `gap` further events the baton
goes to runnable thread number `target` (modulo the number of runnable ones).
When the list is used up the running thread runs on to its end.
"""
import gc
import sys
import threading
import types
import _thread

from . import core

_real_Lock = threading.Lock
_real_RLock = threading.RLock
_current = None         # the active Scheduler, if any


class SimLock:
    """Stands for threading.Lock / RLock inside library code."""
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self._owner is not None and not (self._reentrant and
                                               self._owner == me):
            if not blocking:
                return False
            s = _current
            if s is None or not s.yield_blocked():
                if timeout is not None and timeout >= 0:
                    return False
                raise core.Violation('deadlock', {'lock': 'library lock'})
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if not self._count:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()


class SimRLock(SimLock):
    _reentrant = True


def _importing():
    """Is this thread inside an import (and holds the import lock)?"""
    f = sys._getframe(2)
    while f is not None:
        if f.f_code.co_filename == '<frozen importlib._bootstrap>':
            return True
        f = f.f_back
    return False


def _from_library(depth=2):
    return sys._getframe(depth).f_code.co_filename.startswith(core.FCA_DIR)


def install_lock_seam():
    """threading.Lock()/RLock() called from library code yield simulated
    locks; everybody else still gets real ones."""
    def lock():
        return SimLock() if _from_library() else _real_Lock()

    def rlock(*a, **k):
        return SimRLock() if _from_library() else _real_RLock(*a, **k)
    threading.Lock = lock
    threading.RLock = rlock


STALLED = 20        # seconds without any event


class _Killed(BaseException):
    pass


def _no_opcodes():
    """Raising from a trace function ends tracing in this thread, but the
    interpreter goes on to report opcodes of frames that asked for them as
    long as another thread traces - to a function that is not there."""
    f = sys._getframe(1)
    while f is not None:
        f.f_trace_opcodes = False
        f = f.f_back
    for g in gc.get_objects():
        if type(g) is types.GeneratorType and g.gi_frame is not None:
            g.gi_frame.f_trace_opcodes = False


class Scheduler:
    def __init__(self, env, preempt, opcodes=False, cap=8000000, depth=0):
        self.env = env
        self.preempt = list(preempt)
        self.opcodes = opcodes
        # 0: all frames of the library, n: the outer n; -1, -2: after writes
        self.depth = depth
        self.cap = cap
        self.tasks = []
        self.results = []
        self.running = None
        self.alive = []
        self.ticks = 0
        self.switches = []
        self.next_at = None
        self.pi = 0
        self.dead = False
        self.done = _real_Lock()
        self.idents = {}
        self._arm()

    def spawn(self, fn):
        i = len(self.tasks)
        gate = _real_Lock()
        gate.acquire()
        self.tasks.append([fn, gate, None])
        self.results.append(None)
        return i

    def _arm(self):
        if self.pi < len(self.preempt):
            self.next_at = self.ticks + max(1, int(self.preempt[self.pi][0]))
        else:
            self.next_at = None

    # -- called by the running thread
    def _stop(self, exc):
        self.dead = True
        if self.opcodes:
            _no_opcodes()
        raise exc

    def tick(self):
        if self.dead:
            self._stop(_Killed())
        self.ticks += 1
        if self.ticks > self.cap:
            self._stop(core.Hang('steps'))
        if self.next_at is not None and self.ticks >= self.next_at:
            target = self.preempt[self.pi][1]
            self.pi += 1
            self._arm()
            others = [t for t in self.alive if t != self.running]
            if others and not _importing():
                self._switch(others[target % len(others)])

    def yield_here(self):
        """A seam's yield point; only scheduled threads yield."""
        if self.running is not None and not self.dead and \
                self.idents.get(_thread.get_ident()) == self.running:
            self.tick()

    def yield_blocked(self):
        others = [t for t in self.alive if t != self.running]
        if not others:
            return False
        self.ticks += 1
        if self.ticks > self.cap:
            self._stop(core.Hang('steps'))
        me = self.running
        self.env.probe('lock contention')
        # round robin, so that the owner gets its turn
        later = [t for t in others if t > me] or others
        self._switch(later[0])
        return True

    def _switch(self, target):
        me = self.running
        self.switches.append((self.ticks, target))
        self.running = target
        self.tasks[target][1].release()
        self.tasks[me][1].acquire()
        if self.dead:
            self._stop(_Killed())

    def _body(self, i):
        fn, gate, _ = self.tasks[i]
        gate.acquire()
        self.idents[_thread.get_ident()] = i
        try:
            if self.dead:
                return

            def local(frame, event, arg):
                if event == 'line' or event == 'opcode':
                    self.tick()
                return local

            def tracer(frame, event, arg):
                if not frame.f_code.co_filename.startswith(core.FCA_DIR):
                    return None
                if self.depth < 0:
                    return core.after_writes(frame, self.depth < -1, self.tick)
                if self.depth and core.deeper(frame, self.depth):
                    return None
                if self.opcodes:
                    frame.f_trace_opcodes = True
                return local
            sys.settrace(tracer)
            try:
                self.results[i] = ('ok', fn())
            except _Killed:
                self.results[i] = ('killed', None)
            except core.Hang as h:
                self.results[i] = ('hang', h)
            except BaseException as e:
                self.results[i] = ('error', e)
            finally:
                sys.settrace(None)
        finally:
            self.alive.remove(i)
            if self.dead and self.alive:
                self.running = self.alive[0]
                self.tasks[self.alive[0]][1].release()
            elif self.alive:
                nxt = self.alive[self.pi % len(self.alive)]
                self.switches.append((self.ticks, nxt))
                self.running = nxt
                self.tasks[nxt][1].release()
            else:
                self.done.release()

    def run(self, first=0):
        """Run all spawned tasks to their ends; returns their results as
        ('ok', value) or ('error', exception)."""
        global _current
        if not self.tasks:
            return []
        self.done.acquire()
        threads = [threading.Thread(target=self._body, args=(i,), daemon=True)
                   for i in range(len(self.tasks))]
        self.alive = list(range(len(self.tasks)))
        self.running = first % len(self.tasks)
        _current = self
        try:
            for t in threads:
                t.start()
            self.tasks[self.running][1].release()
            # interruptible: the wall clock alarm must get through
            last, still = -1, 0
            while not self.done.acquire(timeout=0.5):
                still = still + 1 if self.ticks == last else 0
                last = self.ticks
                if still >= 2 * STALLED:
                    raise core.Hang('a thread is stuck')
        except BaseException:
            self.dead = True
            raise
        finally:
            _current = None
        for t in threads:
            t.join(5)
        self.env.ticks += self.ticks
        if any(r and r[0] == 'hang' for r in self.results):
            raise core.Hang('steps')
        self.env.fault('pre-emption', len(self.switches))
        self.env.schedules.add(core.digest(self.switches))
        return self.results


def draw_preemptions(rng, threads, n, mean):
    """A list of [gap, target]: bursts of close switches between long runs;
    with mean 0, runs of every order of magnitude."""
    out = []
    for _ in range(n):
        if not mean:
            out.append([int(2 ** rng.uniform(0, 10)), rng.randrange(threads)])
            continue
        kind = rng.random()
        if kind < .5:
            gap = rng.randint(1, 4)
        elif kind < .85:
            gap = rng.randint(1, max(2, mean))
        else:
            gap = rng.randint(1, max(2, 6 * mean))
        out.append([gap, rng.randrange(threads)])
    return out
