from __future__ import annotations

import asyncio
import sys

from expression import TailCall, tailrec, tailrec_async

from vf.core import Workload, check, fail
from vf.gen import Boom, boom, BoomBase, Surroundings, Tok, nameless, same, value
from vf.sched import Deadlock, Scheduler, Stuck, VLoop, install_lock_shims, pause

install_lock_shims()

PROP = "C25"
RULE = (
    "A case makes a random recursive definition (a script of steps; every step receives positional, defaulted, variadic and keyword arguments, then tail-calls with others, returns a value, raises, or first calls itself, another decorated function or a mutually recursive one "
    "non-tail-recursively), as function, method or async function (with suspensions), and runs it, alone, re-entrantly, interleaved in a virtual-time loop or in preempted threads; the trace of (arguments by identity, step) and the outcome are compared with a plain interpreter of the script, "
    "and the observed stack depth of all steps must be constant, up to hundreds of thousands of steps at the default recursion limit. Non-trivial: at least one tail call; distinct by script shape."
)
ASSUMPTIONS = ["the result of the recursion is not itself a TailCall"]
REQUIRED = ["tail_call", "returned", "raised", "nested", "kwargs", "async_run", "interleaved", "threaded", "long", "long_async", "method", "odd_value", "base_exc", "cancelled", "stateful"]


def result_value(rng):
    v = value(rng)
    return Tok() if isinstance(v, TailCall) else v


KW = ["self", "fn", "args", "kw", "k", "x", "bouncer", *(f"k{i}" for i in range(40))]


def gen_script(rng, depth=2):
    n = rng.choice([0, 1, 2, 3, 5, 9])
    steps = []
    for _ in range(n):
        steps.append(
            {
                "sub": gen_script(rng, depth - 1) if depth and rng.random() < 0.2 else None,
                "args": tuple(value(rng, 1) for _ in range(rng.choice([0, 0, 1, 2, 3]) if rng.random() < 0.8 else rng.choice([5, 6, 7, 8, 9, 12, 20, 70, 300]))),
                "kw": {k: value(rng, 1) for k in rng.sample(KW, rng.choice([0, 0, 1, 2]) if rng.random() < 0.85 else rng.choice([3, 5, 9, 40]))},
                "sleep": rng.choice([None, None, 0, 0.5]),
            }
        )
    end = rng.choice(["return", "return", "return", "raise", "base"])
    return {"steps": steps, "end": end, "val": result_value(rng), "exc": BoomBase("end") if end == "base" else boom(rng, "end"), "id": Tok()}


def model(script, args, kw, log):
    """The undecorated recursion, written as a loop over the script."""
    for i, st in enumerate(script["steps"]):
        log.append((script["id"], i, args, kw))
        if st["sub"] is not None:
            try:
                r = model(st["sub"], (), {}, log)
                log.append(("sub", r))
            except Boom as e:
                log.append(("subexc", e))
        args, kw = st["args"], st["kw"]
    log.append((script["id"], len(script["steps"]), args, kw))
    if script["end"] == "return":
        return script["val"]
    raise script["exc"]


def build(kind, log, rng):
    """The recursive function, decorated."""

    if kind == "sync":

        @tailrec
        def f(script, i, /, *args, **kw):
            """doc of f"""
            log.append((script["id"], i, args, kw))
            pause()
            if i == len(script["steps"]):
                if script["end"] == "return":
                    return script["val"]
                raise script["exc"]
            st = script["steps"][i]
            if st["sub"] is not None:
                try:
                    log.append(("sub", g(st["sub"], 0) if i % 2 else f(st["sub"], 0)))
                except Boom as e:
                    log.append(("subexc", e))
            return TailCall(script, i + 1, *st["args"], **st["kw"])

        @tailrec
        def g(script, i, /, *args, **kw):
            # leaves to f by a non-tail call after its first step
            return f(script, i, *args, **kw)

        return f
    if kind == "method":

        class K:
            @tailrec
            def f(this, script, i, /, *args, **kw):
                """doc of f"""
                log.append((script["id"], i, args, kw))
                if i == len(script["steps"]):
                    if script["end"] == "return":
                        return script["val"]
                    raise script["exc"]
                st = script["steps"][i]
                if st["sub"] is not None:
                    try:
                        log.append(("sub", this.f(st["sub"], 0)))
                    except Boom as e:
                        log.append(("subexc", e))
                return TailCall(this, script, i + 1, *st["args"], **st["kw"])

        return K().f

    @tailrec_async
    async def a(script, i, /, *args, **kw):
        """doc of f"""
        log.append((script["id"], i, args, kw))
        if i == len(script["steps"]):
            if script["end"] == "return":
                return script["val"]
            raise script["exc"]
        st = script["steps"][i]
        if st["sleep"] is not None:
            await asyncio.sleep(st["sleep"])
        if st["sub"] is not None:
            try:
                log.append(("sub", await a(st["sub"], 0)))
            except Boom as e:
                log.append(("subexc", e))
        return TailCall(script, i + 1, *st["args"], **st["kw"])

    return a


def entry_same(x, y):
    if len(x) != len(y) or x[0] is not y[0] and x[0] != y[0]:
        return False
    if len(x) == 2:
        return x[1] is y[1]
    _, i, a, k = x
    _, j, b, m = y
    return i == j and len(a) == len(b) and all(p is q for p, q in zip(a, b)) and list(k) == list(m) and all(k[n] is m[n] for n in k)


def expect(script, args, kw):
    log = []
    try:
        return ("value", model(script, args, kw, log)), log
    except (Boom, BoomBase) as e:
        return ("exc", e), log


def judge(where, got, log, script, args, kw, mon):
    want, wlog = expect(script, args, kw)
    if got[0] != want[0] or got[1] is not want[1]:
        fail(f"{where}: another outcome than the recursion's", got=got, want=want, script=script)
    if len(log) != len(wlog) or not all(entry_same(x, y) for x, y in zip(log, wlog)):
        fail(f"{where}: other steps or arguments than the recursion's", got=log, want=wlog)
    mon.ev("returned" if want[0] == "value" else "raised")
    if want[0] == "exc" and isinstance(want[1], BoomBase):
        mon.ev("base_exc")
    mon.ev("tail_call", len(script["steps"]))
    if any(e[0] in ("sub", "subexc") for e in wlog if isinstance(e[0], str)):
        mon.ev("nested")
    if any(st["kw"] for st in script["steps"]):
        mon.ev("kwargs")
    if want[0] == "value" and not same(want[1], 1):
        mon.ev("odd_value")
    if script["steps"]:
        mon.sig(where, [(len(s["args"]), sorted(s["kw"]), s["sub"] is not None, s["sleep"]) for s in script["steps"]], script["end"])


def first_args(rng):
    return tuple(value(rng, 1) for _ in range(rng.choice([0, 1, 3]))), {k: value(rng, 1) for k in rng.sample(["a", "fn", "args", "self"], rng.choice([0, 0, 2]))}


def sync_runs(rng, mon):
    kind = rng.choice(["sync", "sync", "method"])
    log = []
    f = build(kind, log, rng)
    check(f.__name__ == "f" and f.__doc__ == "doc of f", "metadata of a tail recursive function")
    for _ in range(rng.choice([1, 2, 3])):
        script = gen_script(rng)
        args, kw = first_args(rng)
        log.clear()
        try:
            got = ("value", f(script, 0, *args, **kw))
        except (Boom, BoomBase) as e:
            got = ("exc", e)
        judge(kind, got, list(log), script, args, kw, mon)
        if kind == "method":
            mon.ev("method")
    mon.sample([len(script["steps"]), script["end"], repr(script["val"])[:40]])


def stateful(rng, mon):
    """Steps whose progress is not in their arguments: repeated equal arguments, reused TailCall objects, defaults."""
    n = rng.choice([1, 2, 3, 7, 30])
    kind = rng.choice(["same", "reused", "defaults", "drain", "none"])
    is_async = rng.random() < 0.4
    x = value(rng, 1) if rng.random() < 0.9 else TailCall(1)
    val = result_value(rng)
    left = [n]
    seen = []
    queue = list(range(n))
    again = TailCall(x, k=x)
    a0, kw0 = rng.choice([((), {}), ((x,), {}), ((), {"k": x}), ((x, x), {"k": x}), ((TailCall(x),), {}), ((again,), {"k": again})])
    plan = [rng.choice([((x,), {}), ((), {"k": x}), ((), {}), ((x, 1), {}), ((x,), {"k": 2})]) for _ in range(n)]

    def step(*a, **kw):
        seen.append((a, kw))
        if kind == "drain":
            if not queue:
                return val
            queue.pop()
            return TailCall(queue)
        if left[0] == 0:
            return val
        left[0] -= 1
        if kind == "same":
            return TailCall(x, k=x)
        if kind == "reused":
            return again
        if kind == "none":
            return TailCall()
        a, kw = plan[left[0]]
        return TailCall(*a, **kw)

    if is_async:

        @tailrec_async
        async def f(*a, **kw):
            if rng.random() < 0.3:
                await asyncio.sleep(0)
            return step(*a, **kw)

        loop = VLoop()
        try:
            got = loop.run_until_complete(f(*a0, **kw0))
        finally:
            loop.drain()
    else:

        @tailrec
        def f(*a, **kw):
            return step(*a, **kw)

        got = f(*a0, **kw0)
    check(got is val, "a recursion with its progress in mutable state has another result", got=got, want=val, kind=kind)
    want = [(a0, kw0)]
    for i in range(n):
        want.append({"drain": ((queue,), {}), "same": ((x,), {"k": x}), "reused": ((x,), {"k": x}), "none": ((), {}), "defaults": plan[n - 1 - i]}[kind])
    check(
        len(seen) == len(want) and all(len(a) == len(b) and all(p is q for p, q in zip(a, b)) and list(k) == list(m) and all(k[z] is m[z] for z in k) for (a, k), (b, m) in zip(seen, want)),
        "a recursion with its progress in mutable state has other steps", kind=kind, n=n, got=len(seen),
    )
    mon.ev("stateful")
    mon.sig("stateful", kind, n, is_async, type(x).__name__)


def surroundings(rng, mon):
    """Steps run where the caller is, whatever kind of callable is decorated."""
    s = Surroundings()
    n = rng.choice([1, 3, 20])
    tok = Tok()
    is_async = rng.random() < 0.5
    naps = [rng.random() < 0.3 for _ in range(n + 1)]
    if is_async:

        async def raw(i, *a, **kw):
            s.step()
            if naps[i]:
                await asyncio.sleep(1)
            check(a == (i,) * len(a), "arguments of a step", got=a)
            return (tok, a, kw) if i == n else TailCall(i + 1, i + 1, k=i + 1)

        f = tailrec_async(raw if rng.random() < 0.5 else nameless(rng, raw))

        async def go():
            s.step()
            got = await f(0)
            s.judge(check, "an asynchronous tail recursive function")
            return got

        loop = VLoop()
        try:
            got = loop.run_until_complete(go())
        finally:
            loop.drain()
    else:

        def raw(i, *a, **kw):
            s.step()
            check(a == (i,) * len(a), "arguments of a step", got=a)
            return (tok, a, kw) if i == n else TailCall(i + 1, i + 1, k=i + 1)

        f = tailrec(raw if rng.random() < 0.5 else nameless(rng, raw))
        s.step()
        got = f(0)
        s.judge(check, "a tail recursive function")
    check(got == (tok, (n,), {"k": n}) and got[0] is tok, "the value of a tail recursive function", got=got)
    mon.ev("surroundings")
    mon.sig("surroundings", n, is_async, naps)


def async_runs(rng, mon):
    n = rng.choice([1, 1, 2, 4])
    runs = []
    for _ in range(n):
        log = []
        runs.append([build("async", log, rng), log, gen_script(rng), *first_args(rng), None])
    share = rng.random() < 0.5
    cancel = rng.randrange(n) if n > 1 and rng.random() < 0.3 else None
    at = rng.choice([0, 0.25, 0.75, 2])

    if share and n > 1:
        # one decorated function, several runs: the log entries carry the script's identity
        log = []
        f = build("async", log, rng)
        for r in runs:
            r[0], r[1] = f, log

    async def one(r):
        try:
            r[5] = ("value", await r[0](r[2], 0, *r[3], **r[4]))
        except (Boom, BoomBase) as e:
            r[5] = ("exc", e)

    async def go():
        ts = [asyncio.ensure_future(one(r)) for r in runs]
        if cancel is not None:
            asyncio.get_running_loop().call_later(at, ts[cancel].cancel)
        await asyncio.wait(ts)
        return ts

    loop = VLoop()
    try:
        ts = loop.run_until_complete(go())
    except Stuck:
        fail("an async recursion never ends", scripts=[r[2] for r in runs])
    finally:
        loop.drain()
    for i, (t, r) in enumerate(zip(ts, runs)):
        if t.cancelled():
            check(i == cancel, "a run was cancelled that nobody cancelled")
            mon.ev("cancelled")
            continue
        t.result()
        if share and n > 1:
            want, wlog = expect(r[2], r[3], r[4])
            if r[5][0] != want[0] or r[5][1] is not want[1]:
                fail("an interleaved run has another outcome than the recursion's", got=r[5], want=want)
            mine = [e for e in r[1] if not isinstance(e[0], str) and e[0] is r[2]["id"]]
            wmine = [e for e in wlog if not isinstance(e[0], str) and e[0] is r[2]["id"]]
            check(len(mine) == len(wmine) and all(entry_same(x, y) for x, y in zip(mine, wmine)), "an interleaved run has other steps than the recursion's", got=mine, want=wmine)
        else:
            judge("async", r[5], r[1], r[2], r[3], r[4], mon)
    mon.ev("async_run")
    if n > 1:
        mon.ev("interleaved", n)


def threads(rng, mon):
    log = []
    f = build("sync", log, rng)
    n = rng.choice([2, 3])
    scripts = [gen_script(rng, 1) for _ in range(n)]
    sched = Scheduler(rng)
    outs = [None] * n

    def worker(i):
        def run():
            try:
                outs[i] = ("value", f(scripts[i], 0))
            except (Boom, BoomBase) as e:
                outs[i] = ("exc", e)

        return run

    for i in range(n):
        sched.spawn(worker(i))
    try:
        sched.run()
    except Deadlock as e:
        fail(f"concurrent recursions deadlock: {e}")
    for w in sched.workers:
        if w.error is not None:
            raise w.error
    for i in range(n):
        want, wlog = expect(scripts[i], (), {})
        if outs[i][0] != want[0] or outs[i][1] is not want[1]:
            fail("a concurrent run has another outcome than the recursion's", got=outs[i], want=want)
        mine = [e for e in log if not isinstance(e[0], str) and e[0] is scripts[i]["id"]]
        wmine = [e for e in wlog if not isinstance(e[0], str) and e[0] is scripts[i]["id"]]
        check(len(mine) == len(wmine) and all(entry_same(x, y) for x, y in zip(mine, wmine)), "a concurrent run has other steps than the recursion's", got=mine, want=wmine)
    mon.ev("threaded", sched.switches)
    mon.sig("threads", sched.signature())


def depth_here():
    f = sys._getframe(1)
    n = 0
    while f is not None:
        n += 1
        f = f.f_back
    return n


def long_runs(rng, mon):
    n = rng.choice([2000, 50000, 200000, 300000, 1100000])
    kind = rng.choice(["acc", "kw", "list", "nested"])
    depths = set()
    calls = [0]
    every = max(1, n // 500)

    def note(k):
        calls[0] += 1
        if k % every == 0:
            depths.add(depth_here())

    if kind == "nested":
        n = min(n, 20000)

        @tailrec
        def inner(k, acc):
            if k == 0:
                return acc
            return TailCall(k - 1, acc + 1)

        @tailrec
        def f(k, acc=0):
            note(k)
            if k == 0:
                return acc
            return TailCall(k - 1, acc=acc + inner(3, 0))

        got, want = f(n), 3 * n
    elif kind == "kw":

        @tailrec
        def f(k, *, acc=0):
            note(k)
            return acc if k == 0 else TailCall(k - 1, acc=acc + k)

        got, want = f(n), n * (n + 1) // 2
    elif kind == "list":
        out = []

        @tailrec
        def f(k, acc):
            note(k)
            acc.append(k)
            return acc if k == 0 else TailCall(k - 1, acc)

        got, want = f(n, out), list(range(n, -1, -1))
    else:

        @tailrec
        def f(k, acc):
            note(k)
            if k == 0:
                return acc
            return TailCall(k - 1, acc + k)

        got, want = f(n, 0), n * (n + 1) // 2
    check(got == want, "a long recursion gives another result", kind=kind, n=n)
    check(calls[0] == n + 1, "a long recursion runs another number of steps", kind=kind, n=n, calls=calls[0])
    # the first call may be made by the wrapper, the later ones by the trampoline
    check(max(depths) - min(depths) <= 4, "a tail recursion grows the stack", kind=kind, n=n, depths=sorted(depths)[:10])
    mon.ev("long")
    mon.sig("long", kind, n)


def long_async(rng, mon):
    n = rng.choice([2000, 20000, 60000, 140000, 300000])
    susp = rng.choice([0, 1, 10**9])
    depths = set()
    calls = [0]

    @tailrec_async
    async def f(k, acc=0):
        calls[0] += 1
        if k % max(1, n // 300) == 0:
            depths.add(depth_here())
        if susp == 0 or k % 100 == 0 and susp == 1:
            await asyncio.sleep(0)
        if k == 0:
            return acc
        return TailCall(k - 1, acc=acc + k)

    async def go():
        return await f(n)

    loop = VLoop()
    try:
        got = loop.run_until_complete(go())
    finally:
        loop.drain()
    check(got == n * (n + 1) // 2 and calls[0] == n + 1, "a long async recursion gives another result", n=n, calls=calls[0])
    check(max(depths) - min(depths) <= 4, "an async tail recursion grows the stack", n=n, depths=sorted(depths)[:10])
    mon.ev("long_async")
    mon.sig("long_async", n, susp)


SCALE = 2.5
WORKLOADS = {
    "surroundings": Workload(surroundings, 500, 5000),
    "sync_runs": Workload(sync_runs, 12000, 200000),
    "stateful": Workload(stateful, 4000, 40000),
    "async_runs": Workload(async_runs, 4000, 60000),
    "long_runs": Workload(long_runs, 40, 300),
    "long_async": Workload(long_async, 24, 160),
    "threads": Workload(threads, 2000, 40000),
}
