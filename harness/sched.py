"""A deterministic cooperative scheduler for real Python threads.

install() must be called before uberjob is imported: it replaces threading.Lock, RLock, Thread and the lock allocator
by versions that are scheduled cooperatively inside `Scheduler.run`, and behave as usual outside it. Exactly one
controlled thread runs at a time. Preemption points: every operation on a lock, every thread start and join, the
points the harness marks in user functions, and (optionally) every bytecode instruction executed in uberjob's source
files.
"""
import _thread
import ctypes
import os
import queue as _queue_module
import random
import sys
import threading

_real_allocate = _thread.allocate_lock
_RealThread = threading.Thread
_RealRLock = threading.RLock
_PyRLock = threading._PyRLock

SRC = None  # directory of uberjob's sources
ACTIVE = None


class Aborted(BaseException):
    """Unwinds controlled threads after a deadlock or when the step limit is exceeded."""


def current():
    s = ACTIVE
    if s is None:
        return None, None
    t = s.by_ident.get(_thread.get_ident())
    if t is None:
        return None, None
    return s, t


class CLock:
    __slots__ = ("real", "held", "__weakref__", "owner")

    def __init__(self):
        self.real = _real_allocate()
        self.held = False
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        s, t = current()
        if s is None:
            return self.real.acquire(blocking, timeout)
        s.point("acquire")
        if self.held or self.real.locked():
            if not blocking or timeout == 0:
                return False
            t.waiting = self
            try:
                if not s.block(t, lambda: not self.held and not self.real.locked(), None if timeout is None or timeout < 0 else timeout):
                    return False
            finally:
                t.waiting = None
        self.held = True
        self.owner = t
        return True

    def release(self):
        s, t = current()
        if s is None:
            if self.held and not self.real.locked():
                self.held = False
                return
            return self.real.release()
        if not self.held:
            if self.real.locked():
                self.real.release()
                return
            raise RuntimeError("release unlocked lock")
        self.held = False
        self.owner = None
        s.point("release")

    def locked(self):
        return self.held or self.real.locked()

    def _at_fork_reinit(self):
        self.real = _real_allocate()
        self.held = False

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    acquire_lock = acquire
    release_lock = release


class TCB:
    def __init__(self, thread, index):
        self.thread = thread
        self.index = index
        self.sem = _real_allocate()
        self.sem.acquire()
        self.pred = None
        self.timed = False
        self.finished = False
        self.started = False
        self.wakeup_timeout = False
        self.prio = 0.0
        self.exc = None
        self.ident = None
        self.waiting = None


class CThread(_RealThread):
    _tcb = None

    def start(self):
        s, t = current()
        if s is None:
            return super().start()
        if not getattr(self, "_initialized", False):
            raise RuntimeError("thread.__init__() not called")
        if self._tcb is not None:
            raise RuntimeError("threads can only be started once")
        if s.start_fault is not None:
            s.start_fault -= 1
            if s.start_fault < 0:
                s.start_fault = None
                raise RuntimeError("can't start new thread")
        self._tcb = s.spawn(self)
        s.point("start")

    def join(self, timeout=None):
        if self._tcb is None:
            return super().join(timeout)
        s, t = current()
        if s is None:
            return
        if self._tcb is t:
            raise RuntimeError("cannot join current thread")
        s.point("join")
        tcb = self._tcb
        s.block(t, lambda: tcb.finished, timeout)

    def is_alive(self):
        if self._tcb is not None:
            return not self._tcb.finished
        return super().is_alive()

    @property
    def ident(self):
        if self._tcb is not None:
            return self._tcb.ident
        return super().ident


def _lock_factory():
    return CLock()


def _rlock_factory():
    return _PyRLock()


def install():
    global SRC
    threading.Lock = _lock_factory
    threading._allocate_lock = _lock_factory
    threading.RLock = _rlock_factory
    threading.Thread = CThread
    if hasattr(_queue_module, "_PySimpleQueue"):
        _queue_module.SimpleQueue = _queue_module._PySimpleQueue
    import uberjob

    SRC = os.path.dirname(os.path.abspath(uberjob.__file__))
    return uberjob


class Scheduler:
    """strategy: mean number of steps between preemptions ('rate'), and how the next thread is chosen."""

    def __init__(self, seed, *, trace=True, rate=None, policy=None, max_steps=400000, start_fault=None):
        self.rng = random.Random(seed)
        self.trace = trace
        self.rate = rate if rate is not None else self.rng.choice((2, 5, 12, 30, 90, 300))
        self.policy = policy if policy is not None else self.rng.choice(("random", "random", "pct", "rr"))
        self.max_steps = max_steps
        self.steps = 0
        self.tcbs = []
        self.by_ident = {}
        self.cur = None
        self.countdown = self._draw()
        self.deadlock = None
        self.livelock = False
        self.aborting = False
        self.start_fault = start_fault
        self.interrupt = None  # callable(scheduler, kind) -> bool; raise KeyboardInterrupt in the main thread
        self.interrupted = False
        self.switches = 0
        self.leaked = []
        self.done = _real_allocate()
        self.done.acquire()
        self.virtual_time = 0.0
        self.no_trace_files = ()
        self.timeout_rate = 0

    def _draw(self):
        r = self.rate
        return 1 + int(self.rng.expovariate(1.0 / r))

    # ------------------------------------------------------------ threads
    def spawn(self, thread):
        tcb = TCB(thread, len(self.tcbs))
        tcb.prio = self.rng.random()
        self.tcbs.append(tcb)
        _thread.start_new_thread(self._boot, (tcb,))
        return tcb

    def _boot(self, tcb):
        tcb.sem.acquire()
        ident = _thread.get_ident()
        tcb.ident = ident
        self.by_ident[ident] = tcb
        try:
            with threading._active_limbo_lock:
                threading._active[ident] = tcb.thread
        except Exception:
            pass
        tcb.started = True
        try:
            if self.aborting:
                raise Aborted()
            if self.trace:
                sys.settrace(self._tracer)
            tcb.thread.run()
        except Aborted:
            pass
        except BaseException as e:  # as threading.excepthook would report
            tcb.exc = e
        finally:
            sys.settrace(None)
            self._finish(tcb, ident)

    def _finish(self, tcb, ident):
        tcb.finished = True
        threading._active.pop(ident, None)
        tcb.thread._is_stopped = True
        if tcb.index == 0:
            self.leaked = [t for t in self.tcbs if not t.finished]
            self.on_main_exit()
        self.by_ident.pop(ident, None)
        nxt = self._pick(None)
        if nxt is None:
            alive = [t for t in self.tcbs if not t.finished]
            if not alive:
                self.done.release()
                return
            self._declare_deadlock(alive)
            nxt = self._pick(None)
        self._switch_to(nxt)

    def on_main_exit(self):
        pass

    def _declare_deadlock(self, alive):
        self.deadlock = [t.index for t in alive]
        self.aborting = True

    def _runnable(self, t):
        if t.finished:
            return False
        if self.aborting:
            return True
        if t.pred is None:
            return True
        return t.pred()

    def _pick(self, me):
        runnable = [t for t in self.tcbs if self._runnable(t)]
        if not runnable:
            timed = [t for t in self.tcbs if not t.finished and t.timed]
            if not timed:
                return None
            t = self.rng.choice(timed)
            t.wakeup_timeout = True
            return t
        if self.timeout_rate and self.rng.random() < self.timeout_rate:
            timed = [t for t in self.tcbs if not t.finished and t.timed and t not in runnable]
            if timed:
                t = self.rng.choice(timed)
                t.wakeup_timeout = True
                return t
        if len(runnable) == 1:
            return runnable[0]
        if self.interrupted:
            # the interrupted thread proceeds as fast as it can
            main = self.tcbs[0]
            if main in runnable:
                return main
            if main.waiting is not None and main.waiting.owner in runnable:
                return main.waiting.owner
        if self.policy == "pct":
            if self.rng.random() < 0.15 and me is not None:
                me.prio = -self.rng.random()
            return max(runnable, key=lambda t: t.prio)
        if self.policy == "rr":
            base = me.index if me is not None else 0
            return min(runnable, key=lambda t: (t.index - base - 1) % len(self.tcbs))
        return self.rng.choice(runnable)

    def _switch_to(self, nxt):
        self.cur = nxt
        self.switches += 1
        nxt.sem.release()

    # ------------------------------------------------------------ points
    def point(self, kind):
        """A preemption point of the current thread."""
        if kind == "op" and (self.aborting or self.steps > self.max_steps):
            # raising from an opcode trace function is not safe in CPython
            if self.steps > self.max_steps:
                self.livelock = True
                self.aborting = True
                ctypes.pythonapi.PyThreadState_SetAsyncExc(
                    ctypes.c_ulong(_thread.get_ident()), ctypes.py_object(Aborted)
                )
            return
        if self.aborting:
            raise Aborted()
        self.steps += 1
        if self.steps > self.max_steps and kind != "op":
            self.livelock = True
            self.aborting = True
            raise Aborted()
        me = self.by_ident[_thread.get_ident()]
        if me.index == 0 and kind != "op" and self.interrupt is not None and self.interrupt(self, kind):
            self.interrupt = None
            self.interrupted = True
            raise KeyboardInterrupt()
        self.countdown -= 4 if kind != "op" else 1
        if self.countdown <= 0 or (self.interrupted and me.index):
            self.countdown = self._draw()
            nxt = self._pick(me)
            if nxt is not None and nxt is not me:
                self._switch_to(nxt)
                me.sem.acquire()
                if self.aborting and kind != "op":
                    raise Aborted()

    def block(self, me, pred, timeout=None):
        """Block the current thread until pred() holds. Returns False if it timed out."""
        if self.aborting:
            raise Aborted()
        while not pred():
            if me.index == 0 and self.interrupt is not None and self.interrupt(self, "block"):
                self.interrupt = None
                self.interrupted = True
                raise KeyboardInterrupt()
            me.pred = pred
            if me.index == 0 and self.interrupt is not None:
                me.pred = lambda: pred() or (self.interrupt is not None and self.interrupt(self, "peek"))
            me.timed = timeout is not None
            me.wakeup_timeout = False
            nxt = self._pick(me)
            if nxt is None:
                me.pred = None
                self._declare_deadlock([t for t in self.tcbs if not t.finished])
                raise Aborted()
            if nxt is not me:
                self._switch_to(nxt)
                me.sem.acquire()
            me.pred = None
            if self.aborting:
                raise Aborted()
            if me.wakeup_timeout:
                me.wakeup_timeout = False
                me.timed = False
                return pred()
        me.timed = False
        return True

    def _tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith(SRC) and not fn.endswith(self.no_trace_files or ("\0",)):
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "opcode":
            self.point("op")
        return self._local

    # ------------------------------------------------------------ entry
    def run(self, body):
        """Run body() in a controlled thread; returns (outcome, value)."""
        global ACTIVE
        result = []

        def main():
            try:
                result.append(("ok", body()))
            except Aborted:
                result.append(("aborted", None))
                raise
            except BaseException as e:
                result.append(("raise", e))

        ACTIVE = self
        t = CThread(target=main, daemon=True)
        t._tcb = self.spawn(t)
        try:
            self._switch_to(t._tcb)
            if not self.done.acquire(True, 120):
                self.livelock = True
                self.aborting = True
        finally:
            ACTIVE = None
        if not result:
            result.append(("aborted", None))
        return result[0]


def yield_point():
    s, t = current()
    if s is not None:
        s.point("user")
