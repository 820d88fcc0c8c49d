from __future__ import annotations

import asyncio
import inspect

from expression import Error, Nothing, Ok, Some, effect

from vf.core import Workload, check, fail
from vf.gen import AllEq, Boom, BoomBase, Surroundings, Tok, as_member, nameless, value
from vf.sched import VLoop

from .complib import Program, logs_same, obs
from .optlib import agrees

PROP = "C18"
RULE = (
    "A case compiles a random asynchronous computation body (suspensions, yields, awaited present and absent values, nested and recursive computations, branches, loops, "
    "try/finally with suspension in the handler, async with, raise, return), decorates it with the async option, result or try builder and runs 1-5 runs of it interleaved in a "
    "virtual-time event loop, some cancelled at a random time; outcome (track, value identity), exception object and the complete log of executed statements of every run are compared with "
    "a direct interpreter of the bind chain; a cancelled run must have executed a prefix of the chain plus its cleanup, and only its own caller sees the cancellation. "
    "Non-trivial: a body with at least one statement; distinct by source, outcome and cancellation."
)
ASSUMPTIONS = ["a body that ends has its last yielded value as final value; one that yields nothing has the builder's zero", "bodies do not catch EffectError themselves"]
REQUIRED = ["short", "value", "exception", "interleaved", "cancelled", "recursion", "nested", "long", "plain_body", "surroundings", "cleanup_on_short", "cancel_cleanup", "pieces"]

BUILDERS = {"option": [effect.async_option], "result": [effect.async_result, effect.async_try]}


async def one(p, depth, log):
    try:
        return obs(await p.call(log.append, depth))
    except (Exception, BoomBase) as e:
        return ("exc", e)


def compare(p, depth, got, log, where, mon):
    wlog = []
    want = p.model(depth, wlog.append)
    if not agrees(got, want):
        fail(f"{where}: an async computation has another outcome than its bind chain", got=got, want=want, source=p.src, values=p.V, depth=depth)
    if not logs_same(log, wlog):
        fail(f"{where}: other statements ran than the bind chain runs", got=log, want=wlog, source=p.src, values=p.V, depth=depth)
    mon.ev({"none": "short", "error": "short", "exc": "exception"}.get(want[0], "value"))
    if want[0] in ("none", "error") and any(e[0] in ("finally", "exit") for e in wlog):
        mon.ev("cleanup_on_short")
    return want


def run_loop(make):
    loop = VLoop()
    try:
        return loop.run_until_complete(make())
    finally:
        loop.drain()


def has(prog, k):
    return any(st[0] == k or (len(st) > 2 and has(st[2], k)) for st in prog)


def make(rng, size=None):
    kind = rng.choice(["option", "result"])
    p = Program(rng, kind, True, size=size)
    p.decorate(rng.choice(BUILDERS[kind])())
    return p


def is_chain_prefix(log, wlog):
    """log = a prefix of the chain's log followed only by cleanup entries."""
    i = 0
    while i < min(len(log), len(wlog)) and logs_same([log[i]], [wlog[i]]):
        i += 1
    return all(e[0] in ("finally", "exit") for e in log[i:])


def runs(rng, mon):
    p = make(rng)
    n = rng.choice([1, 1, 2, 3, 5])
    depths = [rng.choice([0, 1, 2]) if p.uses_rec else 0 for _ in range(n)]
    logs = [[] for _ in range(n)]
    delays = [rng.choice([0, 0, 0.25, 1]) for _ in range(n)]
    cancel_at = {i: rng.choice([0, 0.1, 0.5, 1, 4]) for i in range(n) if n > 1 and rng.random() < 0.3}

    async def late(i):
        await asyncio.sleep(delays[i])
        return await one(p, depths[i], logs[i])

    async def go():
        loop = asyncio.get_running_loop()
        tasks = [asyncio.ensure_future(late(i)) for i in range(n)]
        for i, t in enumerate(tasks):
            t.add_done_callback(lambda _, i=i: ended.__setitem__(i, len(logs[i])))
        for i, t in cancel_at.items():
            loop.call_later(t, tasks[i].cancel)
        await asyncio.wait(tasks)
        await asyncio.sleep(1000)
        return tasks

    ended = {}
    tasks = run_loop(go)
    for i, t in enumerate(tasks):
        check(len(logs[i]) == ended[i], "a computation runs on after its run has ended", run=i, cancelled=t.cancelled(), got=logs[i], at=ended[i], source=p.src)
        if t.cancelled():
            check(i in cancel_at, "a run was cancelled that nobody cancelled", run=i, cancelled=list(cancel_at), source=p.src)
            wlog = []
            p.model(depths[i], wlog.append)
            check(is_chain_prefix(logs[i], wlog), "a cancelled run executed something else than a prefix of its chain and cleanup", got=logs[i], chain=wlog, source=p.src)
            ent = [e[1] for e in logs[i] if e[0] == "enter"]
            ext = [e[1] for e in logs[i] if e[0] == "exit"]
            check(sorted(ent) == sorted(ext), "a cancelled run left a scope without its cleanup", got=logs[i], source=p.src)
            mon.ev("cancelled")
            if ext:
                mon.ev("cancel_cleanup")
            continue
        want = compare(p, depths[i], t.result(), logs[i], "a run", mon)
        if depths[i]:
            mon.ev("recursion")
        if p.prog:
            mon.sig(p.src, want[0], n)
    if n > 1:
        mon.ev("interleaved", n)
    if has(p.prog, "call"):
        mon.ev("nested")
    mon.sample(p.src.replace("\n", " ; ")[:300])


def groups(rng, mon):
    """Different computations of one builder interleaved; a failing one does not disturb the others."""
    kind = rng.choice(["option", "result"])
    b = rng.choice(BUILDERS[kind])()
    ps = [Program(rng, kind, True, size=rng.choice([2, 4, 6]), hazards=0.2) for _ in range(3)]
    for p in ps:
        p.decorate(b)
    picks = [rng.choice(ps) for _ in range(rng.randint(2, 6))]
    logs = [[] for _ in picks]

    async def go():
        return await asyncio.gather(*[one(p, 0, lg) for p, lg in zip(picks, logs)])

    got = run_loop(go)
    for p, g, lg in zip(picks, got, logs):
        want = compare(p, 0, g, lg, "an interleaved run", mon)
        mon.sig(p.src, want[0], len(picks))
    mon.ev("interleaved", len(picks))


def plain_bodies(rng, mon):
    kind = rng.choice(["option", "result"])
    b = rng.choice(BUILDERS[kind])()
    v = AllEq() if rng.random() < 0.05 else value(rng)
    if inspect.iscoroutine(v):
        v = Tok()  # a plain function that returns a coroutine is as good as an async one
    calls = []
    mode = rng.choice(["value", "none", "raise", "sync_value", "sync_none", "sync_raise", "gen_one", "gen_empty"])
    exc = rng.choice([Boom, BoomBase, KeyError])(1)
    d = rng.choice([0, 2])

    if mode in ("value", "none", "raise"):

        async def f(*a, **kw):
            """doc"""
            calls.append((a, kw))
            await asyncio.sleep(d)
            if mode == "raise":
                raise exc
            return v if mode == "value" else None
    elif mode.startswith("sync"):

        def f(*a, **kw):
            """doc"""
            calls.append((a, kw))
            if mode == "sync_raise":
                raise exc
            return v if mode == "sync_value" else None
    else:

        async def f(*a, **kw):
            """doc"""
            calls.append((a, kw))
            await asyncio.sleep(d)
            if mode == "gen_one":
                yield v
            else:
                for x in ():
                    yield x
            await asyncio.sleep(d)

    raw, f = f, b(f)
    a, kw = (Tok(), v), {"k": v}

    mem, first = as_member(rng, f)
    if rng.random() < 0.3:
        mem, first = b(nameless(rng, raw)), ()

    async def go():
        try:
            return obs(await mem(*a, **kw))
        except (Exception, BoomBase) as e:
            return ("exc", e)

    got = run_loop(go)
    good = "some" if kind == "option" else "ok"
    zero = ("none",) if kind == "option" else ("ok", None)
    m = mode.removeprefix("sync_")
    want = {"value": (good, v) if v is not None else zero, "none": zero, "raise": ("exc", exc), "gen_one": (good, v), "gen_empty": zero}[m]
    check(agrees(got, want), "a body without or with a single yield", mode=mode, got=got, want=want)
    a = first + a
    check(len(calls) == 1 and len(calls[0][0]) == len(a) and all(x is y for x, y in zip(calls[0][0], a)) and list(calls[0][1]) == ["k"] and calls[0][1]["k"] is v, "arguments of a computation", got=calls)
    check(f.__name__ == "f" and f.__doc__ == "doc", "metadata of a computation")
    mon.ev("plain_body")
    mon.sig("plain", mode, kind, type(v).__name__, d)


def long_bodies(rng, mon):
    kind = rng.choice(["option", "result"])
    b = rng.choice(BUILDERS[kind])()
    n = rng.choice([300, 2000, 6000])
    wrap = Some if kind == "option" else Ok
    bad = (Nothing if kind == "option" else Error(Tok())) if rng.random() < 0.5 else None
    at = rng.randrange(n)
    every = rng.choice([1, 7, 10**9])
    seen = []

    @b
    async def f():
        total = 0
        for i in range(n):
            if i % every == 0:
                await asyncio.sleep(0)
            if bad is not None and i == at:
                yield await bad
            if i % 2:
                x = yield i
            else:
                x = yield await wrap(i)
            seen.append(x)
            total += x
        yield total

    async def go():
        return obs(await f())

    got = run_loop(go)
    if bad is None:
        check(got == (("some" if kind == "option" else "ok"), n * (n - 1) // 2), "a long computation", got=got, n=n)
        check(seen == list(range(n)), "a long computation runs other statements", n=n, got=len(seen))
    else:
        check(agrees(got, obs(bad)), "a long computation with an early exit", got=got, n=n, at=at)
        check(seen == list(range(at)), "a long computation runs other statements", n=n, at=at, got=len(seen))
    mon.ev("long")
    mon.sig("long", kind, n, every, at if bad is not None else None)


def pieces(rng, mon):
    """The builder's own bind, combine, return and zero, called directly."""
    kind = rng.choice(["option", "result"])
    b = rng.choice(BUILDERS[kind])()
    good = "some" if kind == "option" else "ok"

    def m():
        if rng.random() < 0.6:
            return (Some if kind == "option" else Ok)(value(rng))
        return Nothing if kind == "option" else Error(value(rng))

    x, y, v = m(), m(), value(rng)
    calls = []

    async def fn(a):
        calls.append(a)
        await asyncio.sleep(rng.choice([0, 1]))
        return y

    present = obs(x)[0] == good

    async def go():
        got = obs(await b.bind(x, fn))
        check(agrees(got, obs(y) if present else obs(x)), "builder bind", x=x, y=y, got=got)
        check(len(calls) == present and (not present or calls[0] is obs(x)[1]), "builder bind: calls", x=x, got=calls)
        got = obs(await b.combine(x, y))
        check(agrees(got, obs(y) if present else obs(x)), "builder combine", x=x, y=y, got=got)
        check(agrees(obs(await b.return_(v)), (good, v)), "builder return_", v=v)
        check(agrees(obs(await b.return_from(x)), obs(x)), "builder return_from", x=x)
        check(agrees(obs(await b.zero()), ("none",) if kind == "option" else ("ok", None)), "builder zero")

    run_loop(go)
    mon.ev("pieces")
    mon.sig("pieces", kind, obs(x)[0], obs(y)[0], type(v).__name__)


SCALE = 12
def surroundings(rng, mon):
    """Every statement runs where the caller is: same thread, same task, same context variables."""
    kind = rng.choice(["option", "result"])
    b = rng.choice(BUILDERS[kind])()
    s = Surroundings()
    n = rng.choice([1, 3, 10])
    good = Some if kind == "option" else Ok
    how = [rng.choice(["yield", "await", "sleep", "nested", "value"]) for _ in range(n)]

    @b
    async def inner():
        s.step()
        await good(1)
        await asyncio.sleep(1)
        s.step()
        yield 2

    async def sub():
        s.step()
        return good(3)

    @b
    async def f():
        for h in how:
            s.step()
            if h == "yield":
                yield 1
            elif h == "await":
                await good(1)
            elif h == "sleep":
                await asyncio.sleep(1)
            elif h == "value":
                await (await sub())
            elif h == "nested":
                await (await inner())
        s.step()
        yield 5

    async def go():
        s.step()
        got = obs(await f())
        s.judge(check, "an asynchronous computation")
        return got

    got = run_loop(go)
    check(agrees(got, ("some" if kind == "option" else "ok", 5)), "an asynchronous computation", got=got)
    mon.ev("surroundings")
    mon.sig("surroundings", kind, tuple(how))


WORKLOADS = {
    "runs": Workload(runs, 6000, 120000),
    "groups": Workload(groups, 1500, 30000),
    "plain_bodies": Workload(plain_bodies, 2000, 30000),
    "surroundings": Workload(surroundings, 200, 2000),
    "pieces": Workload(pieces, 600, 6000),
    "long_bodies": Workload(long_bodies, 100, 800),
}
