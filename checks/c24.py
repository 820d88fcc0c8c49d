from __future__ import annotations

import asyncio
import gc
import threading
import warnings
import weakref

from expression.core import aiotools
from expression.system import CancellationToken, CancellationTokenSource, OperationCanceledError

from vf.core import Workload, check, fail
from vf.gen import Boom, boom, BoomBase, Tok, value
from vf.sched import Deadlock, Scheduler, Stuck, VLoop, VPolicy, install_lock_shims, pause

install_lock_shims()
warnings.simplefilter("ignore", RuntimeWarning)

PROP = "C24"
RULE = (
    "A case starts 1-6 computations (coroutines, coroutines behind custom awaitables, tasks) with start or start_immediate, with no token, the none token or a shared or own token, in a virtual-time loop; each runs a random script (sleeps, waits for a future that nothing else "
    "references, spins without suspending, catches its cancellation to clean up) ending in a value, a failure or its own cancellation; sources are cancelled before the start, at random times, from other computations or from threads preempted by a seeded scheduler, and garbage is collected in between. "
    "Run, suspension, completion and cancellation logs are compared with the script's model (exactly one run; completes iff not cancelled while running; cancelled at the first suspension after it), weak references show that finished computations are released and running ones are kept. "
    "Continuation-style computations get random sequences of value/error/cancellation, at once or later; the awaiting caller must see the first. Non-trivial: at least one computation ran; distinct by script, outcome and schedule."
)
ASSUMPTIONS = ["a computation cancelled before its first step may be not run at all", "continuations are called on the loop of the computation"]
REQUIRED = [
    "sync_threads",
    "completed", "failed", "self_cancelled", "cancelled", "never_ran", "released", "kept", "token_released", "cont_value", "cont_error", "cont_cancel", "cont_ignored", "run_sync", "thread_cancel", "preempted", "cleanup", "real_thread", "uncancelled_token", "cont_sync", "awaitable_kinds"
]


class Held:
    """Something a computation holds, returns or raises; weakly referable."""


class HeldError(Exception):
    pass


class Wrapped:
    def __init__(self, coro):
        self.coro = coro

    def __await__(self):
        return self.coro.__await__()


class Comp:
    def __init__(self, rng, i):
        self.i = i
        self.script = [rng.choice(["sleep", "sleep", "msleep", "spin", "yield", "lone"]) for _ in range(rng.randint(0, 5))]
        self.delays = [rng.choice([0.002, 0.04, 0.1, 0.5, 1, 3]) for _ in self.script]
        self.end = rng.choice(["value", "value", "none", "raise", "cancel"])
        self.catch = rng.random() < 0.3
        self.kind = rng.choice(["coro", "coro", "wrapped", "task"])
        self.starter = rng.choice([aiotools.start, aiotools.start_immediate])
        self.at = rng.choice([0, 0, 0, 0.2, 1])
        self.source = None
        self.log = []
        self.runs = 0
        self.outcome = None
        self.refs = []
        self.task = None
        self.started = False
        self.cancel_seen = None  # number of steps begun when its source was cancelled
        self.cleaned = False

    async def body(self, lone):
        self.runs += 1
        self.log.append("run")
        self.task = weakref.ref(asyncio.current_task())
        held = Held()
        self.refs.append(weakref.ref(held))
        try:
            for k, (s, d) in enumerate(zip(self.script, self.delays)):
                self.log.append(("begin", k, s))
                if s == "sleep":
                    await asyncio.sleep(d)
                elif s == "msleep":
                    await aiotools.sleep(d * 1000)
                elif s == "yield":
                    await asyncio.sleep(0)
                elif s == "lone":
                    f = asyncio.get_running_loop().create_future()
                    lone.append((self, weakref.ref(f), asyncio.get_running_loop().time() + d))
                    aw = f
                    del f
                    await aw
                    del aw
                self.log.append(("end", k))
            if self.end == "value":
                self.outcome = "completed"
                self.refs.append(weakref.ref(held))
                return held
            if self.end == "raise":
                self.outcome = "failed"
                e = HeldError("computation")
                self.refs.append(weakref.ref(e))
                raise e
            if self.end == "cancel":
                self.outcome = "self_cancelled"
                raise asyncio.CancelledError
            self.outcome = "completed"
        except asyncio.CancelledError:
            if self.outcome is None:
                self.outcome = "cancelled"
                self.log.append("cancelled")
                if self.catch:
                    await asyncio.sleep(0.1)
                    self.cleaned = True
            raise

    def launch(self, lone):
        c = self.body(lone)
        if self.kind == "wrapped":
            c = Wrapped(c)
        elif self.kind == "task":
            c = asyncio.ensure_future(c)
        tok = None if self.source is None else CancellationToken.none() if self.source == "none" else self.source.token
        pre = tok is not None and tok.is_cancellation_requested
        self.precancelled = pre
        self.started = True
        try:
            r = self.starter(c, tok) if tok is not None else self.starter(c)
            check(r is None, "start returned something", got=r)
        except Exception as e:
            check(pre, "starting a computation raised", error=repr(e))
            if self.kind == "task":
                c.cancel()


def started(rng, mon):
    n = rng.choice([1, 1, 2, 3, 6])
    comps = [Comp(rng, i) for i in range(n)]
    srcs = [CancellationTokenSource() for _ in range(2)]
    for c in comps:
        c.source = rng.choice([None, "none", srcs[0], srcs[0], srcs[1]])
        if c.kind == "task" and c.source in srcs:
            c.kind = "coro"
    cancel_at = {}
    for j in range(2):
        if rng.random() < 0.55:
            cancel_at[j] = rng.choice([-1, 0, 0.001, 0.02, 0.1, 0.3, 0.6, 1, 2.05])
    gcs = sorted(rng.choice([0.05, 0.35, 0.9, 1.7]) for _ in range(1 if rng.random() < 0.3 else 0))
    lone: list = []

    async def go():
        loop = asyncio.get_running_loop()
        t0 = loop.time()

        def cancel(j):
            for c in comps:
                if c.source is srcs[j] and c.started and c.outcome is None:
                    c.cancel_seen = len(c.log)
            srcs[j].cancel()

        for j, t in cancel_at.items():
            if t < 0:
                cancel(j)
            else:
                loop.call_at(t0 + t, cancel, j)
        for t in gcs:
            loop.call_at(t0 + t, gc.collect)
        for c in comps:
            if c.at == 0:
                c.launch(lone)
            else:
                loop.call_at(t0 + c.at, c.launch, lone)
        while loop.time() < t0 + 40:
            await asyncio.sleep(0.25)
            if lone:
                if any(loop.time() >= t for _, _, t in lone) and not gcs:
                    gc.collect()
                for e in list(lone):
                    c, r, t = e
                    if loop.time() >= t:
                        lone.remove(e)
                        f = r()
                        if c.outcome is None:
                            if f is None:
                                fail("a running computation was not kept alive", script=c.script, log=c.log)
                            mon.ev("kept")
                            if not f.done():
                                f.set_result(None)
                        del f
            if all(c.started for c in comps) and not lone and all(c.outcome is not None or c.runs == 0 for c in comps) and loop.time() > t0 + 4:
                break
        await asyncio.sleep(1)

    loop = VLoop()
    try:
        try:
            loop.run_until_complete(go())
        except Stuck:
            fail("the event loop waits for ever")
        # judged while the loop and the sources are still there
        for c in comps:
            info = dict(script=c.script, end=c.end, log=c.log, kind=c.kind, outcome=c.outcome, source=None if c.source is None else "none" if c.source == "none" else "token", cancel_at=cancel_at, at=c.at)
            check(c.runs <= 1, "a computation ran twice", **info)
            was_cancelled = c.cancel_seen is not None
            if c.precancelled:
                if c.kind != "task":
                    check(c.runs == 0, "a computation started on a cancelled token ran", **info)
                mon.ev("never_ran")
                continue
            if not was_cancelled:
                check(c.runs == 1, "a started computation did not run", **info)
                want = {"value": "completed", "none": "completed", "raise": "failed", "cancel": "self_cancelled"}[c.end]
                if c.outcome != want:
                    fail("a computation nobody cancelled did not run to its end", want=want, **info)
                steps = [e for e in c.log if type(e) is tuple]
                check(len(steps) == 2 * len(c.script), "a computation skipped or repeated steps", **info)
                mon.ev(want)
                if c.source is not None and c.source != "none":
                    mon.ev("uncancelled_token")
            else:
                if c.runs:
                    if c.outcome != "cancelled":
                        fail("a computation was not cancelled although its token was cancelled while it was suspended", **info)
                    tail = c.log[c.cancel_seen :]
                    # cancelled at its next suspension: at most the synchronous steps up to there ran
                    susp = [e for e in tail if type(e) is tuple and e[0] == "begin" and e[2] != "spin"]
                    check(len(susp) <= (1 if c.cancel_seen == 0 else 0), "a cancelled computation went on past its next suspension point", tail=tail, **info)
                    mon.ev("cancelled")
                    if c.catch:
                        check(c.cleaned, "the cleanup of a cancelled computation did not finish", **info)
                        mon.ev("cleanup")
                else:
                    mon.ev("never_ran")
            if c.kind != "coro":
                mon.ev("awaitable_kinds")
            mon.sig(c.script, c.end, c.kind, c.outcome, c.cancel_seen, c.starter.__name__)
        if rng.random() < 0.35:
            loop.reported.clear()
            gc.collect()
            loop.reported.clear()
            gc.collect()
            for c in comps:
                if c.runs and c.kind != "task":
                    check(c.task() is None, "a finished computation is retained (its task)", end=c.end, outcome=c.outcome, token=c.source is not None)
                    check(all(r() is None for r in c.refs), "a finished computation is retained (its value, error or locals)", end=c.end, outcome=c.outcome, token=c.source is not None)
                    mon.ev("released")
                    if c.source in srcs:
                        mon.ev("token_released")
    finally:
        loop.drain()
    mon.sample([(c.script, c.end, c.kind, c.outcome) for c in comps])


def continuations(rng, mon):
    seqs = []
    n = rng.choice([1, 2, 4])
    for _ in range(n):
        calls = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            k = rng.choice(["done", "error", "cancel"])
            arg = rng.choice([value(rng), None, Tok()]) if k == "done" else boom(rng, "x") if k == "error" else OperationCanceledError("c")
            calls.append((k, arg, rng.choice(["sync", "soon", 0.5, 1, 1, 2])))
        seqs.append(calls)
    outs = [None] * n
    invoked = [0] * n
    actual: list = [[] for _ in range(n)]
    style = [rng.choice(["await", "task", "late", "gather"]) for _ in range(n)]

    async def caller(i):
        loop = asyncio.get_running_loop()

        def cb(done, error, cancel):
            invoked[i] += 1
            fns = {"done": done, "error": error, "cancel": cancel}

            def call(k, a):
                actual[i].append((k, a))
                r = fns[k](a)
                check(r is None, "a continuation returned something", got=r)

            for k, a, when in seqs[i]:
                if when == "sync":
                    call(k, a)
                    mon.ev("cont_sync")
                elif when == "soon":
                    loop.call_soon(call, k, a)
                else:
                    loop.call_later(when, call, k, a)

        aw = aiotools.from_continuations(cb)
        if style[i] == "late":
            await asyncio.sleep(rng.choice([0, 0.7, 5]))
        try:
            if style[i] == "task":
                outs[i] = ("done", await asyncio.wait_for(aw, 100))
            elif style[i] == "gather":
                outs[i] = ("done", (await asyncio.gather(aw))[0])
            else:
                outs[i] = ("done", await aw)
        except asyncio.CancelledError:
            outs[i] = ("cancel", None)
        except Exception as e:
            outs[i] = ("error", e)

    async def go():
        ts = [asyncio.ensure_future(caller(i)) for i in range(n)]
        await asyncio.wait(ts)
        for t in ts:
            t.result()
        await asyncio.sleep(5)

    loop = VLoop()
    try:
        loop.run_until_complete(go())
        bad = [c for c in loop.reported if "never retrieved" not in str(c.get("message"))]
        check(not bad, "a late continuation raised in the loop", reported=[str(b) for b in bad[:2]])
    except Stuck:
        fail("a computation given a continuation never completed", seqs=seqs, outs=outs)
    finally:
        loop.drain()
    for i in range(n):
        check(invoked[i] == 1, "the callback of a continuation computation is called once", calls=invoked[i])
        k, a = actual[i][0]
        if outs[i][0] != k or (k != "cancel" and outs[i][1] is not a):
            fail("the caller did not see the first continuation", first=(k, a), got=outs[i], seq=seqs[i])
        mon.ev({"done": "cont_value", "error": "cont_error", "cancel": "cont_cancel"}[k])
        mon.ev("cont_ignored", len(actual[i]) - 1)
        mon.sig("cont", [(k, w) for k, _, w in seqs[i]], style[i])


def sync_runs(rng, mon):
    k = rng.choice(["value", "raise", "base", "singleton", "from_result", "empty", "sleep", "cont", "wrapped", "cancel"])
    v = value(rng)
    runs = []
    asyncio.set_event_loop_policy(VPolicy())
    try:

        async def comp():
            runs.append(1)
            await asyncio.sleep(rng.choice([0, 2]))
            if k == "raise":
                raise exc
            if k == "base":
                raise exc
            if k == "cancel":
                raise asyncio.CancelledError()
            if k == "cont":
                return await aiotools.from_continuations(lambda d, e, c: d(v))
            return v

        exc = BoomBase("b") if k == "base" else boom(rng, "x")
        if k == "singleton":
            got, want = aiotools.run_synchronously(aiotools.singleton(v)), v
        elif k == "from_result":
            got, want = aiotools.run_synchronously(aiotools.from_result(v)), v
        elif k == "empty":
            got, want = aiotools.run_synchronously(aiotools.empty()), None
        elif k == "sleep":
            ms = rng.choice([0, 1, 250, 999, 1000, 1001, 1500, 60500, rng.randrange(100000)])

            async def timed():
                t = asyncio.get_running_loop().time()
                await aiotools.sleep(ms)
                return asyncio.get_running_loop().time() - t

            got = aiotools.run_synchronously(timed())
            check(abs(got - ms / 1000) < 1e-6, "sleep took another time than asked", got=got, ms=ms)
            want = got
        else:
            try:
                got = aiotools.run_synchronously(Wrapped(comp()) if k == "wrapped" else comp())
                want = v
                check(k not in ("raise", "base", "cancel"), "running synchronously swallowed an error")
            except (Boom, BoomBase) as e:
                check(e is exc, "running synchronously changed an error")
                got = want = None
            except asyncio.CancelledError:
                check(k == "cancel", "a cancellation out of nowhere")
                got = want = None
            check(len(runs) == 1, "a computation run synchronously did not run once", runs=len(runs))
        check(got is want, "running synchronously gave another value", kind=k, got=got, want=want)
    finally:
        asyncio.set_event_loop_policy(None)
    mon.ev("run_sync")
    mon.sig("sync", k, type(v).__name__)


def threads(rng, mon, opcodes=False):
    """Cancellation from other threads while the loop runs or sleeps."""
    sched = Scheduler(rng, opcodes=opcodes)
    n = rng.randint(1, 3)
    srcs = [CancellationTokenSource() for _ in range(n)]
    finals = [rng.choice(["forever", "sleep", "quick"]) for _ in range(n)]
    cancelled = [rng.random() < 0.8 or finals[i] == "forever" for i in range(n)]
    outs = [None] * n
    runs = [0] * n
    refused = [False] * n
    begun = [False]
    loop = VLoop()

    async def comp(i):
        runs[i] += 1
        try:
            if finals[i] == "forever":
                await loop.create_future()
            elif finals[i] == "sleep":
                for _ in range(3):
                    await asyncio.sleep(1)
            else:
                await asyncio.sleep(0)
            outs[i] = "completed"
        except asyncio.CancelledError:
            outs[i] = "cancelled"
            raise

    cancel_end = [False] * n

    async def go():
        begun[0] = True
        for i in range(n):
            c = comp(i)
            try:
                rng2.choice([aiotools.start, aiotools.start_immediate])(c, srcs[i].token)
            except Exception:
                refused[i] = True
                check(srcs[i].is_cancellation_requested, "starting a computation raised")
        others = [w for w in sched.workers if w is not me]
        # nothing but the cancellations may wake this loop up
        for i in range(n):
            if cancelled[i] and finals[i] == "forever" and not refused[i]:
                while outs[i] is None and not (cancel_end[i] and runs[i] == 0):
                    if runs[i]:
                        f = loop.create_future()
                        waiters.append((i, f))
                        await asyncio.wait([f, *[t for t in asyncio.all_tasks() if t is not asyncio.current_task()]], return_when=asyncio.FIRST_COMPLETED)
                    else:
                        await asyncio.sleep(0.01)
        while not all(w.done for w in others):
            await asyncio.sleep(0.01)
        await asyncio.sleep(20)

    waiters: list = []
    rng2 = sched.rng

    def main():
        loop.run_until_complete(go())

    me = sched.spawn(main, "loop")

    def canceller(i):
        def run():
            sched.block(lambda: begun[0])
            for _ in range(rng2.randrange(8)):
                pause()
            srcs[i].cancel()
            cancel_end[i] = True

        return run

    for i in range(n):
        if cancelled[i]:
            sched.spawn(canceller(i), f"canceller{i}")
    try:
        try:
            sched.run()
        except Deadlock as e:
            fail(f"a cancellation from another thread does not reach the computation: {e}", finals=finals, outs=outs, runs=runs)
        for w in sched.workers:
            if w.error is not None:
                raise w.error
    finally:
        loop.drain()
    for i in range(n):
        info = dict(final=finals[i], out=outs[i], runs=runs[i], cancelled=cancelled[i], refused=refused[i])
        check(runs[i] <= 1, "a computation ran twice", **info)
        if refused[i]:
            check(runs[i] == 0, "a computation started on a cancelled token ran", **info)
            mon.ev("never_ran")
        elif not cancelled[i]:
            check(outs[i] == "completed" and runs[i] == 1, "a computation nobody cancelled did not complete", **info)
            mon.ev("completed")
        elif finals[i] == "forever":
            check(outs[i] == "cancelled" or runs[i] == 0, "a computation was not cancelled from another thread", **info)
            mon.ev("thread_cancel")
        else:
            check(outs[i] in ("cancelled", "completed") or runs[i] == 0, "a computation was left unfinished", **info)
    mon.ev("preempted", sched.switches)
    mon.sig("threads", finals, outs, sched.signature())


def threads_op(rng, mon):
    threads(rng, mon, True)


def real_thread(rng, mon):
    """A real loop asleep in its selector is woken up by a cancellation from a thread."""
    out = []
    src = CancellationTokenSource()

    async def comp():
        try:
            await asyncio.sleep(600)
        except asyncio.CancelledError:
            out.append("cancelled")
            fin.set_result(None)
            raise

    async def go():
        nonlocal fin
        loop = asyncio.get_running_loop()
        fin = loop.create_future()
        aiotools.start(comp(), src.token)
        await asyncio.sleep(0)
        t = threading.Thread(target=src.cancel)
        t.start()
        t0 = loop.time()
        try:
            await asyncio.wait_for(fin, 30)
        except asyncio.TimeoutError:
            pass
        t.join()
        return loop.time() - t0

    fin = None
    took = asyncio.run(go())
    check(out == ["cancelled"] and took < 25, "a sleeping loop was not woken up by a cancellation", out=out, took=took)
    mon.ev("real_thread")
    mon.sig("real")


def sync_threads(rng, mon):
    """Computations run synchronously, and started, from several threads at once."""
    n = rng.randint(2, 4)
    out = [None] * n
    plans = [(rng.choice(["value", "raise", "start", "cont"]), rng.choice([0, 0.001, 0.003]), Tok(i), Boom(i)) for i in range(n)]
    go = threading.Barrier(n)

    def thread(i):
        kind, delay, v, exc = plans[i]
        log = []

        async def inner():
            await asyncio.sleep(delay)
            log.append(threading.get_ident())

        async def comp():
            log.append(threading.get_ident())
            await asyncio.sleep(delay)
            if kind == "raise":
                raise exc
            if kind == "start":
                aiotools.start(inner())
                await asyncio.sleep(delay + 0.003)
                while len(log) < 2:
                    await asyncio.sleep(0.001)
            if kind == "cont":
                loop = asyncio.get_running_loop()
                return await aiotools.from_continuations(lambda d, e, c: loop.call_soon(d, v))
            return v

        try:
            go.wait(30)
            r = ("value", aiotools.run_synchronously(comp()))
        except BaseException as e:
            r = ("exc", e)
        out[i] = (r, set(log), len(log), threading.get_ident())

    ts = [threading.Thread(target=thread, args=(i,), daemon=True) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(60)
    for (kind, _, v, exc), o in zip(plans, out):
        check(o is not None, "a computation run synchronously in a thread does not end", plans=plans, out=out)
        (how, got), where, count, me = o
        check((how, got is exc) == ("exc", True) if kind == "raise" else (how, got is v) == ("value", True), "running synchronously from several threads gave another outcome", kind=kind, got=got, want=v)
        check(where == {me} and count == (2 if kind == "start" else 1), "a computation ran another number of times, or in another thread", kind=kind, count=count)
    mon.ev("sync_threads", n)
    mon.sig("sync_threads", tuple(p[0] for p in plans))


SCALE = 3.4
WORKLOADS = {
    "sync_threads": Workload(sync_threads, 60, 600),
    "started": Workload(started, 4000, 60000),
    "continuations": Workload(continuations, 6000, 80000),
    "sync_runs": Workload(sync_runs, 1000, 10000),
    "threads": Workload(threads, 2500, 50000),
    "threads_op": Workload(threads_op, 600, 12000),
    "real_thread": Workload(real_thread, 8, 80),
}
