"""Deterministic scheduler: real threads, parked, released one at a time.

Yield points are the `line` (optionally `opcode`) trace events of code objects whose file lies in the
library under test; every choice comes from a seeded policy or from an explicit switch list.
Locks created by library code are replaced by SimLock, so blocking is a scheduler state.
"""
from __future__ import annotations

import ast
import os
import sys
import threading
import time
import _thread

_real_allocate = _thread.allocate_lock
_real_Lock = threading.Lock
_real_RLock = threading.RLock

LIB = None  # directory prefix of the library, with trailing slash
CURRENT = None  # active Sim, or None


class Deadlock(BaseException):
    pass


class StepLimit(BaseException):
    pass


class Abort(BaseException):
    """thrown into parked tasks we no longer need (never: children are _exit'ed)"""


def set_lib(path):
    global LIB
    LIB = path if path.endswith("/") else path + "/"


def in_lib(filename):
    return filename.startswith(LIB) and "/tests/" not in filename


# --------------------------------------------------------------- foreign threads
# Threads that library code itself starts (the library starts none) run outside the schedule: who waits
# for a lock that one of them holds waits in real time.
_task_idents = set()


def foreign():
    """is there a thread that is neither a task, nor the main thread, nor the caller?"""
    known = _task_idents | {threading.main_thread().ident, _thread.get_ident()}
    return bool(threading._limbo) or any(i not in known for i in sys._current_frames())


def is_foreign():
    i = _thread.get_ident()
    return i not in _task_idents and i != threading.main_thread().ident


def await_foreign(ready, secs=6.0):
    """wait until ready(), as long as there are foreign threads that might bring it about"""
    end = time.monotonic() + secs
    n = 0
    while not ready():
        if n % 50 == 0 and not foreign() or time.monotonic() > end:
            return ready()
        n += 1
        _real_sleep(0.0005)
    return True


# ------------------------------------------------------------------- sim locks
class SimLock:
    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def _me(self):
        s = CURRENT
        if s is not None:
            t = s.me()
            if t is not None:
                return ("task", id(t))
        return ("thr", _thread.get_ident())

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        s = CURRENT
        while True:
            if self.count == 0:
                self.owner, self.count = me, 1
                return True
            if self.reentrant and self.owner == me:
                self.count += 1
                return True
            if not blocking:
                return False
            t = s.me() if s is not None else None
            if t is None:
                timed = timeout is not None and timeout >= 0
                if is_foreign():  # it may wait for a task, and for as long as it likes
                    end = time.monotonic() + timeout
                    while self.count:
                        if timed and time.monotonic() > end:
                            return False
                        _real_sleep(0.001)
                    continue
                if await_foreign(lambda: self.count == 0, min(timeout, 6.0) if timed else 6.0):
                    continue
                if timed:
                    return False
                raise Deadlock("lock held by nobody that can run: %r" % (self.owner,))
            if not s.block(t, self, timeout is not None and timeout >= 0):
                return False

    def release(self):
        if self.count == 0:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.count > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self.count > 0 and self.owner == self._me()

    def _release_save(self):
        c, self.count, self.owner = self.count, 0, None
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self.count = c

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


def _from_lib():
    """was the lock asked for by library code (directly or through helper modules)?"""
    f = sys._getframe(2)
    n = 0
    while f is not None and n < 8:
        if f.f_code.co_filename.startswith(LIB):
            return True
        f = f.f_back
        n += 1
    return False


def _lock_factory(*a, **k):
    return SimLock(False) if _from_lib() else _real_Lock()


def _rlock_factory(*a, **k):
    return SimLock(True) if _from_lib() else _real_RLock()


def _alloc_factory():
    return SimLock(False) if _from_lib() else _real_allocate()


_real_sleep = time.sleep


def _sim_sleep(secs):
    s = CURRENT
    t = s.me() if s is not None else None
    if t is None:
        if LIB and sys._getframe(1).f_code.co_filename.startswith(LIB):
            return
        return _real_sleep(secs)
    s.sim_time += max(0.0, float(secs))
    s.point(t, None, force=True)


def patch_locks():
    threading.Lock = _lock_factory
    threading.RLock = _rlock_factory
    threading._allocate_lock = _alloc_factory
    _thread.allocate_lock = _alloc_factory
    _thread.RLock = _rlock_factory
    time.sleep = _sim_sleep


# -------------------------------------------------------------------- policies
class Policy:
    """decide(sim, task) -> task to run next (called at every yield point)"""

    def first(self, sim, tasks):
        return tasks[0]

    def pick(self, sim, me, others):
        return me

    def pick_blocked(self, sim, others):
        return others[0]


class RandomPolicy(Policy):
    def __init__(self, rng, p):
        self.rng, self.p = rng, p

    def first(self, sim, tasks):
        return self.rng.choice(tasks)

    def pick(self, sim, me, others):
        if others and self.rng.random() < self.p:
            return self.rng.choice(others)
        return me

    def pick_blocked(self, sim, others):
        return self.rng.choice(others)


class PreemptPolicy(Policy):
    """switch at the given global steps only (bounded preemption / PCT-like)"""

    def __init__(self, rng, points):
        self.rng, self.points = rng, set(points)

    def first(self, sim, tasks):
        return self.rng.choice(tasks)

    def pick(self, sim, me, others):
        if others and sim.step in self.points:
            return self.rng.choice(others)
        return me

    def pick_blocked(self, sim, others):
        return self.rng.choice(others)


class SandwichPolicy(Policy):
    """run task A for k of its own steps, then B to completion (or for j steps), then back"""

    def __init__(self, plan):
        self.plan = list(plan)  # [(tid, steps)...] ; then run-to-completion in order
        self.i = 0
        self.left = self.plan[0][1] if self.plan else None

    def _by(self, tasks, tid):
        for t in tasks:
            if t.tid == tid:
                return t
        return None

    def first(self, sim, tasks):
        return self._by(tasks, self.plan[0][0]) or tasks[0]

    def pick(self, sim, me, others):
        if self.i >= len(self.plan):
            return me
        if me.tid != self.plan[self.i][0]:
            return me
        self.left -= 1
        if self.left > 0:
            return me
        return self._next(sim, me, others)

    def _next(self, sim, me, others):
        while True:
            self.i += 1
            if self.i >= len(self.plan):
                return me if me is not None else others[0]
            tid, self.left = self.plan[self.i]
            t = me if me is not None and me.tid == tid else self._by(others, tid)
            if t is not None:
                return t

    def pick_blocked(self, sim, others):
        if self.i < len(self.plan):
            return self._next(sim, None, others)
        return others[0]


class ListPolicy(Policy):
    """replay: explicit list [first, [step, tid], ...] (also used for minimised schedules)"""

    def __init__(self, switches):
        self.sw = {int(s): int(t) for s, t in switches}

    def first(self, sim, tasks):
        return self._get(0, tasks) or tasks[0]

    def _get(self, step, tasks):
        tid = self.sw.get(step)
        for t in tasks:
            if t.tid == tid:
                return t
        return None

    def pick(self, sim, me, others):
        return self._get(sim.step, others) or me

    def pick_blocked(self, sim, others):
        # a task that ended or blocked: the switch was recorded with negative step marker
        return self._get(-sim.step - 1, others) or others[0]


# ------------------------------------------------------------------------ tasks
READY, BLOCKED, DONE, STALLED = "ready", "blocked", "done", "stalled"


class Task:
    def __init__(self, tid, fn):
        self.tid, self.fn = tid, fn
        self.sem = _real_allocate()
        self.sem.acquire()
        self.state = READY
        self.lock = None
        self.timed = False
        self.steps = 0
        self.imp = 0
        self.off = 0
        self.ident = None
        self.result = None
        self.error = None
        self.level = 0


class Sim:
    def __init__(self, policy=None, opcodes=False, step_limit=400000, record=True):
        self.policy = policy or Policy()
        self.opcodes = opcodes
        self.step_limit = step_limit
        self.step = 0
        self.sim_time = 0.0
        self.tasks = []
        self.cur = None
        self.main = _real_allocate()
        self.main.acquire()
        self.switches = []
        self.by_ident = {}
        self.on_point = None  # fn(sim, task, frame)
        self.stop_at = None  # global step at which control returns to the coordinator
        self.stopped = False
        self.trace_hash = 0
        self.nswitch = 0
        self.failure = None  # ('deadlock'|'steplimit', text)

    # -- identity
    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def add(self, fn):
        t = Task(len(self.tasks), fn)
        self.tasks.append(t)
        return t

    # -- tracing
    def tracer(self, task):
        sim = self

        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                if not task.imp and not task.off:
                    sim.point(task, frame)
            return local

        def modlocal(frame, event, arg):
            if event == "return":
                task.imp -= 1
            return modlocal

        def glob(frame, event, arg):
            co = frame.f_code
            fn = co.co_filename
            if not fn.startswith(LIB):
                return None
            if co.co_name == "<module>":
                task.imp += 1
                frame.f_trace_lines = False
                return modlocal
            if sim.opcodes:
                frame.f_trace_opcodes = True
            return local

        return glob

    # -- thread body
    def _boot(self, task):
        task.ident = _thread.get_ident()
        _task_idents.add(task.ident)
        self.by_ident[task.ident] = task
        task.sem.acquire()
        sys.settrace(self.tracer(task))
        try:
            task.result = task.fn(task)
        except BaseException as e:  # noqa: BLE001
            task.error = e
        finally:
            sys.settrace(None)
        task.state = DONE
        self._leave(task)
        _task_idents.discard(task.ident)

    def retrace(self):
        """re-arm tracing after an injected exception switched it off"""
        t = self.me()
        if t is not None:
            sys.settrace(self.tracer(t))

    def runnable(self, but=None):
        return [t for t in self.tasks if t is not but and (t.state == READY or (t.state == BLOCKED and t.lock.count == 0))]

    def _switch_to(self, t, frm):
        self.nswitch += 1
        self.cur = t
        if t.state == BLOCKED:
            t.state = READY
        t.sem.release()

    def _leave(self, task):
        """task finished: give the token to somebody else or to the coordinator"""
        others = self.runnable(task)
        if not others:
            blocked = [t for t in self.tasks if t.state == BLOCKED]
            if blocked and await_foreign(lambda: self.runnable(task)):
                others = self.runnable(task)
        if not others:
            timed = [t for t in blocked if t.timed]
            if timed:
                others = timed
            else:
                if blocked:
                    self.failure = self.failure or ("deadlock", "threads %s wait for a lock nobody will release" % [t.tid for t in blocked])
                self.main.release()
                return
        t = self.policy.pick_blocked(self, others)
        self.switches.append([-self.step - 1, t.tid])
        self._switch_to(t, task)

    def block(self, task, lock, timed):
        """called by SimLock.acquire in a task; returns False on simulated timeout"""
        task.state, task.lock, task.timed = BLOCKED, lock, timed
        others = self.runnable(task)
        if not others and await_foreign(lambda: lock.count == 0, 1.0 if timed else 6.0):
            task.state, task.lock = READY, None
            return True
        if not others:
            timedl = [t for t in self.tasks if t.state == BLOCKED and t.timed]
            if timedl:
                if task in timedl:
                    task.state = READY
                    self.sim_time += 1.0
                    return False
                others = timedl
            else:
                self.failure = self.failure or ("deadlock", "thread %d waits for a lock nobody will release" % task.tid)
                self._freeze(task)
        t = self.policy.pick_blocked(self, others)
        self.switches.append([-self.step - 1, t.tid])
        self._switch_to(t, task)
        task.sem.acquire()
        task.state = READY
        task.lock = None
        return not (timed and lock.count > 0)

    def _freeze(self, task):
        """give control to the coordinator for good"""
        self.stopped = True
        self.main.release()
        while True:
            task.sem.acquire()

    def point(self, task, frame, force=False):
        self.step += 1
        task.steps += 1
        if self.step > self.step_limit:
            self.failure = self.failure or ("steplimit", "no completion within %d statements" % self.step_limit)
            self._freeze(task)
        if self.on_point is not None:
            self.on_point(self, task, frame)
        if self.stop_at is not None and self.step >= self.stop_at:
            self._freeze(task)
        if len(self.tasks) > 1:
            others = self.runnable(task)
            if force and others:
                t = others[0]
            else:
                t = self.policy.pick(self, task, others)
            if t is not task:
                self.switches.append([self.step, t.tid])
                self._switch_to(t, task)
                task.sem.acquire()

    def run(self, timeout=None):
        """run all tasks under the policy; returns when all done / stopped / failed"""
        global CURRENT
        CURRENT = self
        for t in self.tasks:
            _thread.start_new_thread(self._boot, (t,))
        # let every thread park (they block on their semaphores; order is irrelevant)
        while len(self.by_ident) < len(self.tasks):
            _real_sleep(0)
        t = self.policy.first(self, self.tasks)
        self.switches.append([0, t.tid])
        self._switch_to(t, None)
        self.main.acquire()
        CURRENT = None
        return self.failure

    def stalled(self):
        return [t.tid for t in self.tasks if t.state != DONE]


# ------------------------------------------------------ single-threaded tracing
class SoloTracer:
    """trace the calling thread: count steps, call hook(step, frame) at each one"""

    def __init__(self, hook=None, opcodes=False, limit=2_000_000, lines=False):
        self.steps = 0
        self.lines = {} if lines else None
        self.hook = hook
        self.opcodes = opcodes
        self.limit = limit
        self.imp = 0
        self.off = 0

    def local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            if not self.imp and not self.off:
                self.steps += 1
                if self.steps > self.limit:
                    raise StepLimit()
                if self.lines is not None:
                    k = (frame.f_code.co_filename, frame.f_lineno)
                    v = self.lines.get(k)
                    if v is None:
                        self.lines[k] = [self.steps, self.steps]
                    else:
                        v[1] = self.steps
                if self.hook is not None:
                    self.hook(self.steps, frame)
        return self.local

    def modlocal(self, frame, event, arg):
        if event == "return":
            self.imp -= 1
        return self.modlocal

    def glob(self, frame, event, arg):
        co = frame.f_code
        if not co.co_filename.startswith(LIB):
            return None
        if co.co_name == "<module>":
            self.imp += 1
            frame.f_trace_lines = False
            return self.modlocal
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def __enter__(self):
        sys.settrace(self.glob)
        return self

    def arm(self):
        sys.settrace(self.glob)

    def __exit__(self, *a):
        sys.settrace(None)


# ------------------------------------------- lines where an async exception is unfair
_unfair = {}


def unfair_lines(filename):
    """lines on which no caller-visible guarantee is possible in Python for an asynchronous
    exception: headers of `with`/`try`, bodies of `finally`/`except` (cleanup already running)"""
    s = _unfair.get(filename)
    if s is None:
        s = set()
        try:
            tree = ast.parse(open(filename, encoding="utf-8").read())
        except (OSError, SyntaxError):
            tree = ast.Module(body=[], type_ignores=[])
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                s.update(range(n.lineno, n.body[0].lineno))
                s.add(n.lineno)
            elif isinstance(n, ast.Try):
                s.add(n.lineno)
                for b in n.finalbody:
                    s.update(range(b.lineno, b.end_lineno + 1))
        _unfair[filename] = s
    return s
