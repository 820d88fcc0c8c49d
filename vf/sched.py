"""Deterministic cooperative scheduling of real threads running the real code.

* ``install_lock_shims`` replaces ``threading.Lock``/``RLock`` (and what Event,
  Condition and Semaphore are built from) by locks that behave like the real
  ones outside a scheduled run, and cooperatively inside one.
* ``Scheduler`` runs workers one at a time; a worker can lose the processor at
  every line (or opcode) of code in /repo, at every lock operation and at
  explicit ``point()`` calls.  All choices come from one seeded generator, so
  an execution is replayed exactly by its seed.  A state in which no worker
  can run is reported as a deadlock.
* ``VLoop`` is an asyncio event loop in virtual time.  It only wakes up from
  waiting when it was woken up through the thread-safe interface (or a timer
  is due), as a real loop does.
"""

from __future__ import annotations

import _thread
import asyncio
import heapq  # noqa: F401
import random
import sys
import threading
import time
from asyncio import base_events

from .core import REPO, Inconclusive, Unjudged

_get_ident = _thread.get_ident
_real_Lock = _thread.allocate_lock
_real_RLock = threading.RLock

_ACTIVE: dict[int, "_WorkerState"] = {}  # thread ident -> worker of the active scheduler

TRACE_PREFIX = REPO + "/expression"


class Deadlock(Exception):
    """No worker can run."""


class Stuck(BaseException):
    """The event loop waits for something that never comes."""


class SelfDeadlock(BaseException):
    """A thread waits for a lock that it holds itself."""


class _Abort(BaseException):
    """Unwinds workers of an abandoned run."""


# --------------------------------------------------------------------------- locks


class _ShimBase:
    _reentrant = False

    def __init__(self) -> None:
        self._real = _real_RLock() if self._reentrant else _real_Lock()
        self._owner: int | None = None
        self._count = 0
        self._ident: int | None = None
        # locks the library makes for itself, as opposed to those inside of Event etc.
        f = sys._getframe(1)
        self._strict = not self._reentrant and f.f_code.co_filename.startswith(TRACE_PREFIX)

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        me = _ACTIVE.get(_get_ident())
        if me is None:
            if self._strict and blocking and timeout < 0 and self._ident == _get_ident():
                raise SelfDeadlock("a thread waits for a lock that it holds itself")
            r = self._real.acquire(blocking, timeout)
            if r:
                self._ident = _get_ident()
            return r
        s = me.sched
        s.point(("acq",))
        if self._reentrant and self._owner == me.index:
            self._count += 1
            return True
        if self._count:
            if not blocking or timeout >= 0:
                return False  # a timed wait expires
            s.contended += 1
            s.block(lambda: self._count == 0)
        self._owner, self._count = me.index, 1
        return True

    def release(self) -> None:
        me = _ACTIVE.get(_get_ident())
        if me is None:
            self._ident = None
            self._real.release()
            return
        if not self._count or (self._reentrant and self._owner != me.index):
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
        me.sched.point(("rel",))

    def locked(self) -> bool:
        if _get_ident() in _ACTIVE:
            return self._count > 0
        return self._real.locked() if hasattr(self._real, "locked") else False

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._real = _real_RLock() if self._reentrant else _real_Lock()
        self._owner, self._count = None, 0


class ShimLock(_ShimBase):
    pass


class ShimRLock(_ShimBase):
    _reentrant = True

    def _is_owned(self):
        me = _ACTIVE.get(_get_ident())
        if me is None:
            return self._real._is_owned()
        return self._owner == me.index

    def _release_save(self):
        me = _ACTIVE.get(_get_ident())
        if me is None:
            return ("real", self._real._release_save())
        st = (self._owner, self._count)
        self._owner, self._count = None, 0
        me.sched.point(("rel",))
        return ("coop", st)

    def _acquire_restore(self, st):
        kind, v = st
        me = _ACTIVE.get(_get_ident())
        if kind == "real" or me is None:
            self._real._acquire_restore(v)
            return
        me.sched.block(lambda: self._count == 0)
        self._owner, self._count = v


_installed = False


def install_lock_shims() -> None:
    global _installed
    if _installed:
        return
    _installed = True
    threading.Lock = ShimLock  # type: ignore
    threading.RLock = ShimRLock  # type: ignore
    threading._allocate_lock = ShimLock  # type: ignore


# --------------------------------------------------------------------------- scheduler


class _WorkerState:
    def __init__(self, sched, index, name, fn):
        self.sched = sched
        self.index = index
        self.name = name
        self.fn = fn
        self.baton = _real_Lock()
        self.baton.acquire()
        self.waiting = None  # predicate
        self.idle = None  # predicate of a wait that ends when nothing else can run
        self.done = False
        self.result = None
        self.error: BaseException | None = None
        self.prio = 0.0
        self.deadlocked = False
        self.steps = 0


class Scheduler:
    """Runs the given workers under a seeded, replayable schedule."""

    def __init__(self, rng: random.Random, opcodes: bool = False, max_steps: int = 400_000, trace: bool = True):
        self.rng = random.Random(rng.getrandbits(64))
        self.workers: list[_WorkerState] = []
        self.trace = trace
        self.opcodes = opcodes
        self.max_steps = max_steps
        self.steps = 0
        self.switches = 0
        self.lowest = 0
        self.contended = 0
        self.current: _WorkerState | None = None
        self.finished = _real_Lock()
        self.finished.acquire()
        self.aborting = False
        self.deadlock: list[str] | None = None
        self.overrun = False
        self.log: list[tuple[int, int]] = []  # (step, worker) at each switch
        r = self.rng.random()
        self.p = 0.0
        if r < 0.3:
            self.mode = "random"
            self.p = self.rng.choice([0.02, 0.05, 0.1, 0.2, 0.35, 0.6])
        elif r < 0.55:
            self.mode = "pct"
        elif r < 0.9:
            self.mode = "delay"
        else:
            self.mode = "burst"
            self.p = self.rng.choice([0.01, 0.03])
        # pct: steps of the run at which the running worker gets the lowest priority
        # delay: the same by steps of a worker, so that each of its lines is as likely
        self.ranked = self.mode in ("pct", "delay")
        self.change_points: set = set()
        if self.mode == "pct":
            horizon = self.rng.choice([20, 60, 150, 400, 1000])
            for _ in range(self.rng.randint(1, 5)):
                self.change_points.add(self.rng.randrange(horizon))

    # -- set-up
    def spawn(self, fn, name: str | None = None) -> _WorkerState:
        w = _WorkerState(self, len(self.workers), name or f"w{len(self.workers)}", fn)
        self.workers.append(w)
        return w

    def run(self, watchdog_s: float = 120.0):
        for w in self.workers:
            w.prio = self.rng.random()
        if self.mode == "delay":
            for _ in range(self.rng.choice([1, 1, 2, 3])):
                horizon = self.rng.choice([5, 12, 30, 80, 300])
                self.change_points.add((self.rng.randrange(len(self.workers)), self.rng.randint(1, horizon)))
        for w in self.workers:
            _thread.start_new_thread(self._main, (w,))
        first = self._pick(None)
        self.current = first
        first.baton.release()
        if not self.finished.acquire(True, watchdog_s):
            self.aborting = True
            raise Inconclusive("watchdog: the scheduled run did not finish")
        if self.overrun:
            raise Unjudged("the scheduled run exceeded its step bound")
        if self.deadlock:
            raise Deadlock("; ".join(self.deadlock))
        return self

    def signature(self):
        return tuple(self.log[:64])

    # -- inside workers
    def _main(self, w: _WorkerState):
        w.baton.acquire()
        ident = _get_ident()
        _ACTIVE[ident] = w
        try:
            if self.aborting:
                raise _Abort
            if self.trace:
                sys.settrace(self._tracer)
            try:
                w.result = w.fn()
            finally:
                sys.settrace(None)
        except _Abort:
            pass
        except BaseException as e:
            w.error = e
        finally:
            _ACTIVE.pop(ident, None)
            w.done = True
            self._leave(w)

    def _leave(self, w):
        nxt = self._pick(w, must_leave=True)
        if nxt is None:
            self.finished.release()
        else:
            self.current = nxt
            self.log.append((self.steps, nxt.index))
            nxt.baton.release()

    def _tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(TRACE_PREFIX):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local_trace

    def _local_trace(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.point()
        return self._local_trace

    def _runnable(self):
        """Workers that can run now; falls back to idle waiters; sets deadlock."""
        live = [x for x in self.workers if not x.done]
        if self.aborting:
            return live
        out = [x for x in live if x.waiting is None or x.waiting()]
        if not out:
            out = [x for x in live if x.idle is not None and x.idle()]
        if not out and live:
            self.deadlock = [f"{x.name} waits for ever" for x in live]
            self.aborting = True
            return live
        return out

    def _pick(self, me, must_leave=False, prefer_other=False):
        cand = self._runnable()
        if must_leave:
            cand = [c for c in cand if c is not me]
        if not cand:
            return None
        if prefer_other and len(cand) > 1:
            cand = [c for c in cand if c is not me] or cand
        if self.ranked:
            return max(cand, key=lambda c: c.prio)
        return self.rng.choice(cand)

    def point(self, what=None):
        """The current worker may lose the processor here."""
        me = self.current
        if me is None or _ACTIVE.get(_get_ident()) is not me:
            return
        if self.aborting:
            raise _Abort
        self.steps += 1
        me.steps += 1
        if self.steps > self.max_steps:
            self.overrun = True
            self.aborting = True
            raise _Abort
        if self.ranked:
            if (self.steps if self.mode == "pct" else (me.index, me.steps)) in self.change_points:
                self.lowest -= 1
                me.prio = self.lowest
            for x in self.workers:  # a worker of higher priority may have become able to run
                if x.prio > me.prio and not x.done and (x.waiting is None or x.waiting()):
                    self._switch(me)
                    break
            return
        if self.rng.random() < self.p:
            self._switch(me, prefer_other=True)

    def _switch(self, me, prefer_other=False):
        nxt = self._pick(me, prefer_other=prefer_other)
        if nxt is not None and nxt is not me:
            self.switches += 1
            self.log.append((self.steps, nxt.index))
            self.current = nxt
            nxt.baton.release()
            me.baton.acquire()
        if self.aborting:
            raise _Abort

    def block(self, pred, idle=None):
        """Wait until pred() holds (or, with idle, until nothing else can run)."""
        me = _ACTIVE[_get_ident()]
        while not pred():
            me.waiting = pred
            me.idle = idle
            nxt = self._pick(me)
            if nxt is not None and nxt is not me:
                self.switches += 1
                self.log.append((self.steps, nxt.index))
                self.current = nxt
                nxt.baton.release()
                me.baton.acquire()
            me.waiting = None
            me.idle = None
            if self.aborting:
                raise _Abort
            if idle is not None and not pred():
                return False
        return True


def scheduled() -> Scheduler | None:
    w = _ACTIVE.get(_get_ident())
    return None if w is None else w.sched


def pause():
    """A possible preemption point in harness code."""
    s = scheduled()
    if s is not None:
        s.point()


# --------------------------------------------------------------------------- event loop


class _VSelector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        loop = self.loop
        s = scheduled()
        if loop._vwoken:
            loop._vwoken = False
            if s is not None:
                s.point()
            return []
        if timeout is not None and timeout <= 0:
            if s is not None:
                s.point()
            return []
        if s is None:
            if timeout is None:
                raise Stuck("the event loop waits for ever")
            loop._vtime += timeout
            return []
        if timeout is None:
            s.block(lambda: loop._vwoken)
            loop._vwoken = False
            return []
        # a timer is pending: it fires when nothing else happens, or at a whim
        if s.rng.random() < 0.3 or not s.block(lambda: loop._vwoken, idle=lambda: True):
            loop._vtime += timeout
        loop._vwoken = False
        return []

    def close(self):
        pass


class VLoop(base_events.BaseEventLoop):
    """An event loop in virtual time."""

    def __init__(self):
        self._vtime = 1000.0
        self._vwoken = False
        super().__init__()
        self._selector = _VSelector(self)
        self._clock_resolution = 1e-9
        self.reported: list[dict] = []
        self.set_exception_handler(lambda loop, ctx: self.reported.append(ctx))

    def time(self):
        return self._vtime

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        self._vwoken = True
        s = scheduled()
        if s is not None:
            s.point()

    def close(self):
        if not self.is_closed():
            super().close()

    def drain(self):
        """Cancel what is left and close."""
        if self.is_closed():
            return
        try:
            left = [t for t in asyncio.all_tasks(self) if not t.done()]
            for t in left:
                t.cancel()
            if left:
                try:
                    self.run_until_complete(asyncio.gather(*left, return_exceptions=True))
                except Stuck:
                    pass
            try:
                self.run_until_complete(self.shutdown_asyncgens())
            except Stuck:
                pass
        finally:
            try:
                self.close()
            except RuntimeError:
                pass


class VPolicy(asyncio.DefaultEventLoopPolicy):
    def new_event_loop(self):
        return VLoop()


def run_async(make_coro, keep: bool = False):
    """Run an async scenario in virtual time. Stuck if it can never finish."""
    loop = VLoop()
    try:
        return loop.run_until_complete(make_coro())
    finally:
        loop.drain()


_ = (time, heapq)
