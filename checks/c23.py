from __future__ import annotations

import asyncio
import sys
import threading

from expression.system import (
    AnonymousDisposable,
    AsyncAnonymousDisposable,
    AsyncCompositeDisposable,
    AsyncDisposable,
    Disposable,
    ObjectDisposedException,
)

from vf.core import Workload, check, fail
from vf.gen import Boom, BoomBase, Tok, boom
from vf.sched import Deadlock, Scheduler, VLoop, install_lock_shims, pause

install_lock_shims()

PROP = "C23"
RULE = (
    "A case creates a disposable (sync or async, plain, user-defined subclass, composite of nested composites, empty) and disposes it through a random history of explicit calls, scopes left normally, by return, break, exception, interrupt or cancellation, "
    "re-entrant disposal from its own action, disposal by concurrent tasks of a virtual-time loop or by 2-6 threads preempted at every line/opcode of the library (or free-running), or by a thread the action waits for; the action's call log is compared with exactly once, entering is compared with the disposed state, "
    "and body exceptions with what leaves the scope. Non-trivial: at least one disposal; distinct by history or schedule."
)
ASSUMPTIONS = ["an async disposable belongs to one event loop"]
REQUIRED = ["disposed", "scope_normal", "scope_exception", "scope_interrupt", "refused_enter", "reentrant", "threaded", "preempted", "action_raises", "async_concurrent", "composite", "empty", "subclass", "async_scope", "async_cancel", "free_running", "undisposed", "enter_race", "waiting"]


def sync_history(rng, mon):
    calls = []
    act = rng.choice(["ok", "ok", "raise", "reenter", "enter", "value"])
    exc = boom(rng, "action")

    def action(*a):
        calls.append(a)
        if act == "raise":
            raise exc
        if act == "reenter":
            d.dispose()
            mon.ev("reentrant")
        if act == "enter":
            try:
                with d:
                    fail("a disposable was entered during its disposal")
            except ObjectDisposedException:
                pass
        if act == "value":
            return True

    d = rng.choice([Disposable.create, AnonymousDisposable])(action)
    check(isinstance(d, Disposable), "not a disposable")
    disposed = False
    hist = []
    for _ in range(rng.randint(0, 8)):
        k = rng.choice(["dispose", "with", "with_exc", "with_base", "with_return", "with_dispose", "with_nested", "idle"])
        hist.append(k)
        first = not disposed
        before = len(calls)
        if k == "idle":
            check(len(calls) == before, "an action ran by itself", hist=hist)
            continue
        if k == "dispose":
            try:
                d.dispose()
                check(not (first and act == "raise"), "the exception of the action was swallowed", hist=hist)
            except Boom as e:
                check(e is exc and first, "a later dispose raised", hist=hist)
                mon.ev("action_raises")
        else:
            body = boom(rng, "body") if k == "with_exc" else BoomBase("body") if k == "with_base" else None
            entered = []

            def scope():
                with d as x:
                    entered.append(x)
                    check(len(calls) == before, "the action ran before the scope was left", hist=hist)
                    if body is not None:
                        raise body
                    if k == "with_return":
                        return 5
                    if k == "with_dispose":
                        d.dispose()
                        check(len(calls) == 1, "dispose inside the scope did not run the action", hist=hist)
                    if k == "with_nested":
                        with d:
                            pass
                        check(len(calls) == 1, "the inner scope did not run the action", hist=hist)

            try:
                scope()
                check(body is None, "the scope swallowed the exception of its body", hist=hist)
                check(not disposed, "a disposed disposable was entered", hist=hist)
                check(not (first and act == "raise"), "the exception of the action was swallowed", hist=hist)
                mon.ev("scope_normal")
            except (Boom, BoomBase) as e:
                check(not disposed, "a disposed disposable was entered", hist=hist)
                if act == "raise":
                    check(e is exc, "another exception than the action's", hist=hist)
                    check(e.__context__ is body or body is None, "the action's exception lost the body's", hist=hist)
                    mon.ev("action_raises")
                else:
                    check(e is body, "another exception left the scope than the body raised", got=repr(e), hist=hist)
                    mon.ev("scope_interrupt" if isinstance(e, BoomBase) else "scope_exception")
            except ObjectDisposedException:
                check(disposed, "a live disposable refused to be entered", hist=hist)
                check(not entered, "the body ran although entering was refused", hist=hist)
                check(len(calls) == before, "a refused scope ran the action", hist=hist)
                mon.ev("refused_enter")
                continue
            check(entered and entered[0] is d, "entering gives something else than the disposable", hist=hist)
        disposed = True
        check(len(calls) == 1, "the action did not run exactly once", calls=len(calls), hist=hist, act=act)
        mon.ev("disposed")
    check(len(calls) == (1 if disposed else 0) and all(a == () for a in calls), "the action did not run exactly once", calls=len(calls), hist=hist, act=act)
    if not disposed:
        mon.ev("undisposed")
    else:
        mon.sig("sync", hist, act)
    mon.sample([act, hist])


def subclasses(rng, mon):
    """Scopes of user-defined disposables."""
    log = []

    class Mine(Disposable):
        def dispose(self):
            log.append("dispose")

    class AMine(AsyncDisposable):
        async def dispose_async(self):
            await asyncio.sleep(rng.choice([0, 1]))
            log.append("dispose")

    body = rng.choice([None, boom(rng, "b"), BoomBase("b"), ObjectDisposedException()])
    is_async = rng.random() < 0.5
    d = AMine() if is_async else Mine()

    def sync():
        with d as x:
            check(x is d and not log, "entering a user-defined disposable", got=x, log=log)
            if body is not None:
                raise body

    async def asyn():
        async with d as x:
            check(x is d and not log, "entering a user-defined disposable", got=x, log=log)
            if body is not None:
                raise body

    try:
        if is_async:
            loop = VLoop()
            try:
                loop.run_until_complete(asyn())
            finally:
                loop.drain()
        else:
            sync()
        check(body is None, "the scope swallowed the exception of its body")
    except (Boom, BoomBase, ObjectDisposedException) as e:
        check(e is body, "another exception left the scope than the body raised", got=repr(e))
    check(log == ["dispose"], "leaving the scope did not dispose exactly once", log=log)
    mon.ev("subclass")
    mon.sig("sub", is_async, type(body).__name__)


def threads(rng, mon, opcodes=False):
    calls = []
    sched = Scheduler(rng, opcodes=opcodes)
    racing = rng.random() < 0.5
    began = [False]

    def action():
        calls.append(sched.current.index)
        pause()

    d = Disposable.create(action)
    outs = []

    def disposer():
        began[0] = True
        pause()
        d.dispose()
        pause()
        d.dispose()

    def scoper():
        was = began[0]
        try:
            with d:
                pause()
                began[0] = True
            outs.append("in")
        except ObjectDisposedException:
            outs.append("refused")
            check(began[0], "a live disposable refused to be entered")
        _ = was
        mon.ev("enter_race")

    exc2 = boom(rng, "b")

    def raiser():
        began[0] = True
        e = exc2
        try:
            with d:
                raise e
        except Boom as x:
            check(x is e, "the body's exception was replaced")
        except ObjectDisposedException:
            pass
        else:
            fail("the body's exception was swallowed")

    n = rng.randint(2, 6)
    kinds = []
    for i in range(n):
        f = disposer if not racing else rng.choice([disposer, scoper, raiser])
        kinds.append(f.__name__)
        sched.spawn(f)
    try:
        sched.run()
    except Deadlock as e:
        fail(f"disposing deadlocks: {e}", kinds=kinds)
    for w in sched.workers:
        if w.error is not None:
            raise w.error
    check(len(calls) == 1, "the action did not run exactly once for concurrent disposals", calls=calls, kinds=kinds, switches=sched.switches)
    mon.ev("threaded")
    mon.ev("preempted", sched.switches)
    mon.ev("disposed")
    mon.sig("threads", kinds, sched.signature())


def threads_op(rng, mon):
    threads(rng, mon, True)


def free_threads(rng, mon):
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for _ in range(20):
            calls = []
            d = Disposable.create(lambda: calls.append(1))
            bar = threading.Barrier(4)

            def run():
                bar.wait()
                d.dispose()

            ts = [threading.Thread(target=run) for _ in range(4)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            check(len(calls) == 1, "the action did not run exactly once for free-running threads", calls=len(calls))
    finally:
        sys.setswitchinterval(old)
    mon.ev("free_running", 20)
    mon.sig("free")


def async_history(rng, mon):
    calls, ended = [], []
    act = rng.choice(["ok", "sleep", "sleep", "raise", "reenter", "enter"])
    exc = boom(rng, "action")
    delay = rng.choice([0.5, 2])

    async def action(*a):
        calls.append(a)
        if act == "sleep":
            await asyncio.sleep(delay)
        if act == "raise":
            await asyncio.sleep(0)
            raise exc
        if act == "reenter":
            await d.dispose_async()
            mon.ev("reentrant")
        if act == "enter":
            try:
                async with d:
                    fail("a disposable was entered during its disposal")
            except ObjectDisposedException:
                pass
        ended.append(1)

    d = rng.choice([AsyncDisposable.create, AsyncAnonymousDisposable])(action)
    n = rng.choice([1, 1, 2, 4, 6])
    plan = [(rng.choice(["dispose", "dispose", "with", "with_exc", "with_base", "with_cancel", "twice"]), rng.choice([0, 0, 0.2, 1, 3]), rng.choice([0, 0.3, 1])) for _ in range(n)]
    res = [None] * n
    entered_at_disposed = []

    async def one(i, k, start, inner):
        await asyncio.sleep(start)
        pre = len(calls)
        body = boom(rng, "body") if k == "with_exc" else BoomBase("body") if k == "with_base" else None
        try:
            if k in ("dispose", "twice"):
                await d.dispose_async()
                check(len(calls) == 1, "dispose returned without the action having run", plan=plan)
                if k == "twice":
                    await d.dispose_async()
                    check(len(calls) == 1, "a second dispose ran the action again", plan=plan)
            else:
                async with d as x:
                    if pre:
                        entered_at_disposed.append(i)
                    check(x is d, "entering gives something else than the disposable")
                    await asyncio.sleep(inner)
                    if body is not None:
                        raise body
                    if k == "with_cancel":
                        asyncio.current_task().cancel()
                        await asyncio.sleep(1)
                check(len(calls) == 1, "leaving the scope did not run the action", plan=plan)
            res[i] = "ok"
            check(body is None and k != "with_cancel", "the scope swallowed what its body raised", plan=plan)
            mon.ev("async_scope")
        except asyncio.CancelledError:
            check(k == "with_cancel", "a cancellation out of nowhere", plan=plan)
            check(len(calls) == 1, "a cancelled scope did not run the action", plan=plan)
            res[i] = "cancelled"
            mon.ev("async_cancel")
        except (Boom, BoomBase) as e:
            res[i] = "raised"
            if e is exc:
                mon.ev("action_raises")
            else:
                check(e is body, "another exception left the scope than the body raised", got=repr(e), plan=plan)
                check(len(calls) == 1, "an exceptional scope did not run the action", plan=plan)
        except ObjectDisposedException:
            res[i] = "refused"
            check(pre == 1, "a live disposable refused to be entered", plan=plan)
            mon.ev("refused_enter")

    async def go():
        ts = [asyncio.ensure_future(one(i, *p)) for i, p in enumerate(plan)]
        await asyncio.wait(ts)
        for t in ts:
            t.result()

    loop = VLoop()
    try:
        loop.run_until_complete(go())
    finally:
        loop.drain()
    check(not entered_at_disposed, "a disposed disposable was entered", plan=plan)
    check(len(calls) == 1 and calls[0] == (), "the async action did not run exactly once", calls=len(calls), plan=plan, act=act)
    if act not in ("raise",) and not any(r == "cancelled" for r in res):
        check(len(ended) == 1, "the async action was not awaited to its end", plan=plan, act=act)
    check(sum(1 for r in res if r == "raised" and False) == 0, "")
    mon.ev("disposed")
    if n > 1:
        mon.ev("async_concurrent", n)
    mon.sig("async", act, [(k, s) for k, s, _ in plan])


def composites(rng, mon):
    log = []
    count = [0]
    members = []

    def leaf():
        i = count[0]
        count[0] += 1
        delay = rng.choice([0, 0, 0.5])
        kind = rng.choice(["create", "create", "mine", "empty"])
        if kind == "empty":
            return AsyncDisposable.empty()
        members.append((i, kind))
        if kind == "create":

            async def action():
                log.append(("begin", i))
                if delay:
                    await asyncio.sleep(delay)
                log.append(("end", i))

            return AsyncDisposable.create(action)

        class Mine(AsyncDisposable):
            async def dispose_async(self):
                log.append(("begin", i))
                if delay:
                    await asyncio.sleep(delay)
                log.append(("end", i))

        return Mine()

    mine = []  # members that act on every disposal may be given again

    def tree(depth):
        if mine and rng.random() < 0.1:
            i, d = rng.choice(mine)
            members.append((i, "again"))
            return d
        if depth == 0 or rng.random() < 0.4:
            d = leaf()
            if members and members[-1][0] == count[0] - 1 and members[-1][1] == "mine":
                mine.append((count[0] - 1, d))
            return d
        return rng.choice([AsyncDisposable.composite, AsyncCompositeDisposable])(*[tree(depth - 1) for _ in range(rng.choice([0, 1, 2, 3]))])

    c = AsyncDisposable.composite(*[tree(2) for _ in range(rng.choice([0, 1, 2, 5]) if rng.random() < 0.97 else rng.choice([12, 40, 130, 300]))])
    how = rng.choice(["dispose", "with", "with_exc"])
    body = boom(rng, "b")

    async def go():
        check(not log, "a composite disposed its members early", log=log)
        if how == "dispose":
            await c.dispose_async()
        else:
            try:
                async with c as x:
                    check(x is c and not log, "a composite disposed its members early", log=log)
                    if how == "with_exc":
                        raise body
                check(how != "with_exc", "a composite's scope swallowed the exception")
            except Boom as e:
                check(e is body, "a composite's scope changed the exception")

    loop = VLoop()
    try:
        loop.run_until_complete(go())
    finally:
        loop.drain()
    want = [x for i, _ in members for x in (("begin", i), ("end", i))]
    check(log == want, "a composite did not dispose each member once, in order", got=log, want=want, how=how)
    mon.ev("composite")
    mon.sig("composite", [k for _, k in members], how)


def empties(rng, mon):
    e = AsyncDisposable.empty()
    n = rng.randint(1, 4)
    body = rng.choice([None, boom(rng, "x")])

    async def go():
        try:
            async with e as x:
                check(x is e, "entering the empty disposable")
                if body:
                    raise body
            check(body is None, "the empty disposable swallowed an exception")
        except Boom as x:
            check(x is body, "the empty disposable changed an exception")
        for _ in range(n):
            await e.dispose_async()

    loop = VLoop()
    try:
        loop.run_until_complete(go())
    finally:
        loop.drain()
    a = Tok()
    _ = a
    mon.ev("empty")
    mon.sig("empty", n, body is None)


def waiting(rng, mon):
    """An action that waits for another thread which disposes, or tries to enter, the same disposable."""
    seen = []
    runs = []
    what = [rng.choice(["dispose", "enter"]) for _ in range(rng.randint(1, 3))]

    def work():
        try:
            for w in what:
                if w == "dispose":
                    d.dispose()
                else:
                    try:
                        with d:
                            seen.append("entered")
                    except ObjectDisposedException:
                        pass
            seen.append("done")
        except BaseException as e:
            seen.append(e)

    def action():
        runs.append(1)
        t = threading.Thread(target=work, daemon=True)
        t.start()
        t.join(20)
        if t.is_alive():
            seen.append("stuck")

    d = rng.choice([Disposable.create, AnonymousDisposable])(action)
    if rng.random() < 0.5:
        with d:
            pass
    else:
        d.dispose()
    check(runs == [1], "the action did not run once", runs=len(runs))
    check(seen == ["done"], "an action and a thread that uses the same disposable wait for each other, or the thread was treated wrongly", seen=seen, what=what)
    mon.ev("waiting")
    mon.sig("waiting", tuple(what))


SCALE = 7.8
WORKLOADS = {
    "waiting": Workload(waiting, 100, 1000),
    "sync_history": Workload(sync_history, 15000, 200000),
    "subclasses": Workload(subclasses, 800, 8000),
    "async_history": Workload(async_history, 8000, 120000),
    "composites": Workload(composites, 3000, 40000),
    "empties": Workload(empties, 200, 2000),
    "threads": Workload(threads, 5000, 100000),
    "threads_op": Workload(threads_op, 3000, 60000),
    "free_threads": Workload(free_threads, 16, 160),
}
