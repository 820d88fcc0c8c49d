from __future__ import annotations

import asyncio
import inspect

from expression import Builder, EffectError
from expression.core.async_builder import AsyncBuilder

from vf.core import Workload, check, fail
from vf.gen import Boom, BoomBase, Tok, as_member, boom, nameless, outcome, same, value
from vf.sched import Scheduler, VLoop, pause

PROP = "C31"
RULE = (
    "A case defines a builder (a subclass of the synchronous or asynchronous base class) over a logging writer type whose operations each leave a mark and may transform the value, decorates a random body "
    "(yields, yields from values of the type, loops, returned values, early exits by EffectError, exceptions, no yields at all) and compares outcome, marks, values received by the body and exception with a direct "
    "interpreter of the operations. Calls are repeated, nested, re-entrant, interleaved in a virtual-time loop and on preempted threads, and long. "
    "Non-trivial: a body with at least one statement; distinct by body, operations and outcome."
)
ASSUMPTIONS = ["bind calls its function exactly once"]
REQUIRED = ["sync", "async", "short", "exception", "returned", "plain", "base", "threads", "nested", "long", "interleaved", "delayed"]


class W:
    """A value with the marks of the operations that made it."""

    def __init__(self, value, log):
        self.value, self.log = value, tuple(log)

    def __iter__(self):
        return (yield self.value)

    # values of the type tell nothing by their truth, size or equality
    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __eq__(self, o):
        return True

    __hash__ = object.__hash__

    def __repr__(self):
        return f"W({self.value!r}, {self.log!r})"


class Ops:
    """The operations as plain functions: used by the builder and, apart from it, by the interpreter."""

    def __init__(self, rng):
        self.t = rng.randrange(3)
        self.dl = rng.random() < 0.5  # whether the builder has a delay of its own

    def ret(self, x):
        return W(("r", x) if self.t == 1 else x, [("ret", x)])

    def unwrap(self, m):
        return ("b", m.value) if self.t == 2 else m.value

    def bound(self, m, r):
        return W(r.value, [*r.log, ("bind", m.value)])

    def combine(self, a, b):
        return W(b.value, [*a.log, "+", *b.log])

    def zero(self):
        return W(None, ["zero"])

    def retfrom(self, m):
        return W(m.value, [*m.log, "from"])

    def delay(self, m):
        return W(("d", m.value), [*m.log, "delay"]) if self.dl else m

    def run(self, m):
        return W(("run", m.value), [*m.log, "run"])


def sync_builder(ops, counts):
    class B(Builder):
        def bind(self, xs, fn):
            r = fn(ops.unwrap(xs))
            counts["bind"] = counts.get("bind", 0) + 1
            return ops.bound(xs, r)

        def return_(self, x):
            return ops.ret(x)

        def return_from(self, xs):
            return ops.retfrom(xs)

        def combine(self, xs, ys):
            return ops.combine(xs, ys)

        def zero(self):
            return ops.zero()

        def run(self, computation):
            counts["run"] = counts.get("run", 0) + 1
            return ops.run(computation)

    if not ops.dl:
        return B()

    class D(B):
        def delay(self, fn):
            return ops.delay(fn())

    return D()


def async_builder(ops, counts, nap):
    class B(AsyncBuilder):
        async def bind(self, xs, fn):
            await nap()
            r = await fn(ops.unwrap(xs))
            await nap()
            return ops.bound(xs, r)

        async def return_(self, x):
            await nap()
            return ops.ret(x)

        async def return_from(self, xs):
            return ops.retfrom(xs)

        async def combine(self, xs, ys):
            await nap()
            return ops.combine(xs, ys)

        async def zero(self):
            return ops.zero()

        async def run(self, computation):
            await nap()
            counts["run"] = counts.get("run", 0) + 1
            return ops.run(computation)

    if not ops.dl:
        return B()

    class D(B):
        async def delay(self, fn):
            await nap()
            return ops.delay(fn())

    return D()


def make_body(rng, is_async, n=None):
    """Statements: ("y", v) ("f", v) ("s",) ("ret", v) ("retnone",) ("eff", W) ("raise", e) ("n", k)."""
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 6]) if n is None else n):
        r = rng.random()
        if r < 0.45:
            out.append(("y", value(rng, 1)))
        elif r < 0.65:
            out.append(("f", value(rng, 1)) if not is_async else ("y", value(rng, 1)))
        elif r < 0.75:
            out.append(("s",))
        elif r < 0.83:
            out.append(("n", rng.randrange(3)))
        elif r < 0.88:
            out.append(("retnone",) if is_async or rng.random() < 0.3 else ("ret", value(rng, 1)))
        elif r < 0.94:
            out.append(("eff", W(value(rng, 1), ["payload"])))
        else:
            out.append(("raise", boom(rng, "body", effect=False) if rng.random() < 0.8 else BoomBase("body")))
    return out


def sync_body(stmts, log, inner):
    for st in stmts:
        k = st[0]
        if k == "y":
            x = yield st[1]
            log(("y", x))
        elif k == "f":
            x = yield from W(st[1], [])
            log(("f", x))
        elif k == "s":
            log(("s",))
        elif k == "n":
            log(("n", inner(st[1])))
        elif k == "ret":
            return st[1]
        elif k == "retnone":
            return None
        elif k == "eff":
            raise EffectError(st[1])
        else:
            raise st[1]


async def async_body(stmts, log, inner):
    for st in stmts:
        k = st[0]
        if k == "y":
            x = yield st[1]
            log(("y", x))
        elif k == "s":
            await asyncio.sleep(0)
            log(("s",))
        elif k == "n":
            log(("n", await inner(st[1])))
        elif k == "retnone":
            return
        elif k == "eff":
            raise EffectError(st[1])
        elif k == "raise":
            raise st[1]


def model(ops, stmts, log, inner):
    """Outcome of the operations written out: ("ok", W) or ("exc", e)."""
    cur = result = None  # last statement's value, all statements' value

    def joined(new):
        """The value of the next statement, bound to the previous one."""
        nonlocal cur, result
        new = ops.delay(new)
        if cur is None:
            cur = result = new
        else:
            cur = ops.bound(cur, new)
            result = ops.combine(result, cur)

    for st in stmts:
        k = st[0]
        if k in ("y", "f"):
            joined(ops.ret(st[1]))
            log((k, ops.unwrap(cur)))
        elif k == "s":
            log(("s",))
        elif k == "n":
            log(("n", inner(st[1])))
        elif k == "ret":
            if st[1] is not None:
                joined(ops.ret(st[1]))
            break
        elif k == "retnone":
            break
        elif k == "eff":
            joined(ops.retfrom(st[1]))
            break
        else:
            return ("exc", st[1])
    if result is None:
        result = ops.zero()
    return ("ok", ops.run(result))


def eqv(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(eqv(x, y) for x, y in zip(a, b))
    if isinstance(a, W) and isinstance(b, W):
        return eqv(a.value, b.value) and eqv(a.log, b.log)
    return same(a, b)


def judge(got, want, glog, wlog, stmts, what, mon):
    if got[0] != want[0] or (got[1] is not want[1] if want[0] == "exc" else not (type(got[1]) is W and eqv(got[1], want[1]))):
        fail(f"{what}: another outcome than the builder's operations give", got=got, want=want, body=stmts)
    if not eqv(tuple(glog), tuple(wlog)):
        fail(f"{what}: the body received other values or ran other statements", got=glog, want=wlog, body=stmts)
    ks = {st[0] for st in stmts}
    if want[0] == "exc":
        mon.ev("exception")
    if "eff" in ks:
        mon.ev("short")
    if "ret" in ks:
        mon.ev("returned")
    if "n" in ks:
        mon.ev("nested")


def shape(stmts):
    return tuple((st[0], type(st[1]).__name__ if len(st) > 1 else "") for st in stmts)


def run_sync(comp, stmts, log, inner):
    try:
        return ("ok", comp(stmts, log, inner))
    except (Exception, BoomBase) as e:
        return ("exc", e)


def sync(rng, mon):
    ops, counts = Ops(rng), {}
    b = sync_builder(ops, counts)
    comp = b(sync_body)
    subs = [make_body(rng, False, rng.choice([0, 1, 2])) for _ in range(3)]
    for s in subs:
        s[:] = [st for st in s if st[0] not in ("n", "raise")]
    stmts = make_body(rng, False)

    def inner(k):
        return comp(subs[k], lambda e: None, None)

    def minner(k):
        return model(ops, subs[k], lambda e: None, None)[1]

    for _ in range(rng.choice([1, 2])):
        glog, wlog = [], []
        counts.clear()
        got = run_sync(comp, stmts, glog.append, inner)
        want = model(ops, stmts, wlog.append, minner)
        judge(got, want, glog, wlog, stmts, "a call", mon)
        n = (want[0] == "ok") + sum(1 for e in wlog if e[0] == "n")
        check(counts.get("run", 0) == n, "run is not applied exactly once to each computation", got=counts, want=n, body=stmts)
    mon.ev("sync")
    if stmts:
        mon.sig("sync", shape(stmts), ops.t, ops.dl, want[0])
        if ops.dl:
            mon.ev("delayed")


def interleaved(rng, mon):
    ops, counts = Ops(rng), {}

    async def nap():
        if rng.random() < 0.4:
            await asyncio.sleep(rng.choice([0, 0, 1]))

    comp = async_builder(ops, counts, nap)(async_body)
    bodies = [make_body(rng, True) for _ in range(rng.choice([1, 2, 3]))]
    subs = [[st for st in make_body(rng, True, 2) if st[0] not in ("n", "raise")] for _ in range(3)]
    runs = [rng.choice(bodies) for _ in range(rng.randint(1, 4))]

    async def inner(k):
        return await comp(subs[k], lambda e: None, None)

    def minner(k):
        return model(ops, subs[k], lambda e: None, None)[1]

    async def one(stmts, log):
        try:
            return ("ok", await comp(stmts, log.append, inner))
        except (Exception, BoomBase) as e:
            return ("exc", e)

    async def go():
        logs = [[] for _ in runs]
        return list(zip(await asyncio.gather(*[one(s, l) for s, l in zip(runs, logs)]), logs))

    loop = VLoop()
    try:
        outs = loop.run_until_complete(go())
    finally:
        loop.drain()
    for stmts, (got, glog) in zip(runs, outs):
        wlog = []
        judge(got, model(ops, stmts, wlog.append, minner), glog, wlog, stmts, "an async run", mon)
        mon.ev("async")
        if stmts:
            mon.sig("async", shape(stmts), ops.t, got[0])
    if len(runs) > 1:
        mon.ev("interleaved")


def plain(rng, mon):
    """Bodies without yields, and the operations a base class does not have."""
    ops, counts = Ops(rng), {}
    v = value(rng) if rng.random() < 0.9 else None
    is_async = rng.random() < 0.5
    if inspect.isgenerator(v) or is_async and (inspect.isasyncgen(v) or inspect.iscoroutine(v)):
        v = Tok()
    calls = []

    async def nap():
        pass

    if is_async:

        async def body(*a, **kw):
            calls.append((a, kw))
            return v

        if rng.random() < 0.4:

            def body(*a, **kw):
                calls.append((a, kw))
                return v

        comp = async_builder(ops, counts, nap)(body if rng.random() < 0.7 else nameless(rng, body))
        loop = VLoop()
        try:
            comp, first = as_member(rng, comp) if rng.random() < 0.7 else (comp, ())
            got = loop.run_until_complete(comp(1, k=v))
        finally:
            loop.drain()
    else:

        def body(*a, **kw):
            calls.append((a, kw))
            return v

        comp, first = as_member(rng, sync_builder(ops, counts)(body if rng.random() < 0.7 else nameless(rng, body)))
        got = comp(1, k=v)
    want = ops.run(ops.zero() if v is None else ops.ret(v))
    check(eqv(got, want), "a body without yields", got=got, want=want)
    check(len(calls) == 1 and calls[0][0] == (*first, 1) and calls[0][1]["k"] is v and counts == {"run": 1}, "calls of a body without yields", got=calls, counts=counts)
    mon.ev("plain")

    base = Builder()
    for name, f in (("bind", lambda: base.bind(1, lambda x: x)), ("return_", lambda: base.return_(1)), ("return_from", lambda: base.return_from(1)), ("combine", lambda: base.combine(1, 2)), ("zero", lambda: base.zero())):
        o = outcome(f)
        check(o[0] == "exc" and isinstance(o[1], NotImplementedError), f"the base builder has a {name}", got=o)
    t = Tok()
    check(base.delay(lambda: t) is t and base.run(t) is t, "delay or run of the base builder")
    abase = AsyncBuilder()

    def arun(co):
        try:
            co.send(None)
        except StopIteration as e:
            return ("ok", e.value)
        except Exception as e:
            return ("exc", e)

    for name, co in (("bind", abase.bind(1, None)), ("return_", abase.return_(1)), ("return_from", abase.return_from(1)), ("combine", abase.combine(1, 2)), ("zero", abase.zero())):
        o = arun(co)
        check(o[0] == "exc" and isinstance(o[1], NotImplementedError), f"the base async builder has a {name}", got=o)
    check(arun(abase.delay(lambda: t)) == ("ok", t) and arun(abase.run(t)) == ("ok", t), "delay or run of the base async builder")
    mon.ev("base")
    mon.sig("plain", is_async, type(v).__name__)


def threads(rng, mon):
    ops = Ops(rng)
    comp = sync_builder(ops, {})(sync_body)
    bodies = [[st for st in make_body(rng, False, rng.choice([2, 4])) if st[0] != "n"] for _ in range(2)]
    s = Scheduler(rng)
    runs = []

    def worker(stmts):
        def go():
            log = []

            def logged(e):
                log.append(e)
                pause()

            runs.append((stmts, run_sync(comp, stmts, logged, None), log))

        return go

    for _ in range(rng.randint(2, 3)):
        s.spawn(worker(rng.choice(bodies)))
    s.run()
    for w in s.workers:
        check(w.error is None, "a concurrent run failed", error=w.error)
    for stmts, got, log in runs:
        wlog = []
        judge(got, model(ops, stmts, wlog.append, None), log, wlog, stmts, "a concurrent run", mon)
    mon.ev("threads", len(runs))
    mon.sig("threads", s.signature(), shape(bodies[0]))


class Sum(Builder):
    """Adds up everything that is yielded."""

    def bind(self, xs, fn):
        return fn(xs)

    def return_(self, x):
        return x

    def return_from(self, xs):
        return xs

    def combine(self, xs, ys):
        return xs + ys

    def zero(self):
        return 0


def long(rng, mon):
    n = rng.choice([1500, 5000])
    at = rng.choice([None, rng.randrange(n)])
    seen = []

    @Sum()
    def f():
        for i in range(n):
            if i == at:
                raise EffectError(-1)
            seen.append((yield i))
        if rng.random() < 0.5:
            return 1

    got = f()
    m = n if at is None else at
    check(seen == list(range(m)), "a long body received other values", n=n, at=at, got=len(seen))
    base = m * (m - 1) // 2
    check(got in ((base, base + 1) if at is None else (base - 1,)), "a long body has another outcome", got=got, n=n, at=at)
    mon.ev("long")
    mon.sig("long", n, at)


SCALE = 20
WORKLOADS = {
    "sync": Workload(sync, 12000, 200000),
    "interleaved": Workload(interleaved, 4000, 60000),
    "plain": Workload(plain, 1500, 10000),
    "threads": Workload(threads, 1000, 15000),
    "long": Workload(long, 40, 300),
}
