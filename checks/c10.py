from __future__ import annotations

import asyncio

from expression import Nothing, Some, pipe
from expression.collections import asyncseq
from expression.collections.asyncseq import AsyncSeq

from vf.core import Workload, check, fail
from vf.gen import TRUTHY, UNTRUE, Boom, big, boom, Eq, Tok, same, same_sum, summands, value
from vf.sched import Stuck, run_async

PROP = "C10"
RULE = (
    "A case builds a pipeline of 0-6 async operators over an instrumented async source (finite, endless, failing at a position, or never producing another "
    "item after a position; some of hundreds of items) that suspends at random points in virtual time, next to the operators' list definitions as lazy generators over an identical "
    "source; it consumes the pipeline item by item and after every item compares the item, the pulls of every source, and the callbacks' calls, "
    "or runs an aggregate. Several pipelines may run interleaved in one event loop. A consumption that can never finish is seen as a stuck loop. "
    "Non-trivial: at least one item or aggregate observed; distinct by pipeline, source and suspension pattern."
)
ASSUMPTIONS = ["operators returning an async iterable rather than an AsyncSeq are wrapped in AsyncSeq to continue a fluent chain", "an async sequence is consumed once"]
REQUIRED = ["items", "exhausted", "source_exc", "callback_exc", "hanging_source", "endless", "aggregates", "interleaved", "suspensions", "prefix_only", "bigs"]


class Hang(Exception):
    """The definition pulls an item that never comes."""


class Src:
    """Counts pulls; usable as sync (definition) or async (real) source."""

    def __init__(self, data, end, delays, exc):
        self.data, self.end, self.delays, self.exc = data, end, delays, exc
        self.pulls = 0
        self.suspended = 0
        self.far = max(300, 3 * len(data))

    def sync(self):
        i = 0
        while True:
            self.pulls += 1
            if i < len(self.data):
                yield self.data[i]
            elif self.end == "endless":
                if i > self.far:
                    raise Hang  # the definition needs too much of an endless source
                yield ("e", i)
            elif self.end == "fail":
                raise self.exc
            elif self.end == "hang":
                raise Hang
            else:
                return
            i += 1

    async def pause(self, i):
        d = self.delays[i % len(self.delays)]
        if d is None:
            return
        self.suspended += 1
        await asyncio.sleep(d)

    async def agen(self):
        i = 0
        while True:
            self.pulls += 1
            await self.pause(2 * i)
            if i < len(self.data):
                yield self.data[i]
            elif self.end == "endless":
                yield ("e", i)
            elif self.end == "fail":
                raise self.exc
            elif self.end == "hang":
                await asyncio.get_running_loop().create_future()
            else:
                return
            await self.pause(2 * i + 1)
            i += 1

    def obj(self):
        src = self

        class It:
            i = 0

            def __aiter__(self):
                return self

            async def __anext__(self):
                src.pulls += 1
                i = self.i
                self.i += 1
                await src.pause(i)
                if i < len(src.data):
                    return src.data[i]
                if src.end == "endless":
                    return ("e", i)
                if src.end == "fail":
                    raise src.exc
                if src.end == "hang":
                    await asyncio.get_running_loop().create_future()
                raise StopAsyncIteration

        return It()


def delays(rng):
    k = rng.randrange(4)
    if k == 0:
        return [None]
    if k == 1:
        return [0]
    return [rng.choice([None, 0, 0, 0.5, 2, 30]) for _ in range(rng.randint(1, 5))]


def item(rng):
    r = rng.randrange(9)
    if r == 8:
        return value(rng, 1)
    if r == 0:
        return Tok()
    if r == 1:
        return Eq(rng.randrange(3), rng.randrange(99))
    return [None, 0, False, "", 1, 5][r - 2]


def items(rng, n=None):
    return [item(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8]) if n is None else n)]


class Stage:
    def __init__(self, rng, long=0):
        self.name = rng.choice(["map", "map", "filter", "choose", "collect", "concat", "take", "skip", "tail", "scan", "append"])
        self.rlog, self.flog = [], []
        self.boom_at = rng.randrange(6) if rng.random() < 0.12 else None
        self.exc = boom(rng, "callback")
        self.bits = [rng.choice(TRUTHY if rng.random() < 0.6 else UNTRUE) for _ in range(7)]
        self.n = rng.choice([0, 1, 1, 2, 3, 4, 9])
        if long:
            self.n = rng.choice([rng.randrange(long + 2), big(rng, 300), long - 1, long, long + 1])
            if self.boom_at is not None:
                self.boom_at = rng.randrange(long + 2)
        self.inner = []  # (real, ref)
        self.state = item(rng)
        d = delays(rng)
        self.subs = [(items(rng, rng.choice([0, 0, 1, 2, 3])), d, "fail" if rng.random() < 0.08 else "end", boom(rng, "inner")) for _ in range(4)]
        self.other = (items(rng, rng.choice([0, 1, long]) if long else None), rng.choice(["end", "end", "fail", "hang", "endless"]), delays(rng))
        self.oexc = boom(rng, "other")
        self.op = None
        if self.name == "append":
            self.inner.append((Src(*self.other, self.oexc), Src(*self.other, self.oexc)))

    def cb(self, log, *a):
        i = len(log)
        log.append(a)
        if i == self.boom_at:
            raise self.exc
        return i

    def value(self, i, *a):
        """A deterministic result of the i-th callback call."""
        return ("m", self.name, i) if i % 3 else a[-1]

    def sub(self, i, real):
        data, d, end, exc = self.subs[i % 4]
        while len(self.inner) <= i:
            self.inner.append((Src(data, end, d, exc), Src(data, end, d, exc)))
        return self.inner[i][0 if real else 1]

    # -- the real code
    async def real(self, src, method):
        n = self.name
        log = self.rlog
        s = src if isinstance(src, AsyncSeq) else AsyncSeq(src)

        def mapper(x):
            return self.value(self.cb(log, x), x)

        def pred(x):
            return self.bits[self.cb(log, x) % 7]

        def chooser(x):
            i = self.cb(log, x)
            return Some(self.value(i, x)) if self.bits[i % 7] else Nothing

        def coll(x):
            return self.sub(self.cb(log, x), True).agen()

        def folder(st, x):
            return self.value(self.cb(log, st, x), st, x)

        if n == "map":
            return await s.map(mapper) if method else pipe(src, asyncseq.map(mapper))
        if n == "filter":
            return await s.filter(pred) if method else pipe(src, asyncseq.filter(pred))
        if n == "choose":
            return await s.choose(chooser) if method else pipe(src, asyncseq.choose(chooser))
        if n == "collect":
            return await s.collect(coll) if method else pipe(src, asyncseq.collect(coll))
        if n == "concat":
            return await AsyncSeq(await s.map(coll)).concat()
        if n == "take":
            return await s.take(self.n)
        if n == "skip":
            return await s.skip(self.n)
        if n == "tail":
            return await s.tail()
        if n == "scan":
            return s.scan(folder, self.state)
        return pipe(src, asyncseq.append(self.inner[0][0].agen()))

    # -- the definition
    def ref(self, it):
        n = self.name
        log = self.flog
        if n == "map":
            for x in it:
                yield self.value(self.cb(log, x), x)
        elif n == "filter":
            for x in it:
                if self.bits[self.cb(log, x) % 7]:
                    yield x
        elif n == "choose":
            for x in it:
                i = self.cb(log, x)
                if self.bits[i % 7]:
                    yield self.value(i, x)
        elif n in ("collect", "concat"):
            for x in it:
                yield from self.sub(self.cb(log, x), False).sync()
        elif n == "take":
            left = self.n
            while left > 0:
                for x in it:
                    break
                else:
                    return
                yield x
                left -= 1
        elif n == "skip":
            for i, x in enumerate(it):
                if i >= self.n:
                    yield x
        elif n == "tail":
            for i, x in enumerate(it):
                if i:
                    yield x
        elif n == "scan":
            st = self.state
            yield st
            for x in it:
                st = self.value(self.cb(log, st, x), st, x)
                yield st
        else:
            yield from it
            yield from self.inner[0][1].sync()


class Twin:
    def __init__(self, rng, nmax=6, long=0):
        self.end = rng.choice(["end", "end", "end", "fail", "hang", "endless"])
        data = items(rng, long or None)
        d = delays(rng)
        self.exc = boom(rng, "source")
        self.r = Src(data, self.end, d, self.exc)
        self.f = Src(data, self.end, d, self.exc)
        self.stages = [Stage(rng, long) for _ in range(rng.randrange(nmax + 1))]
        self.methods = [rng.random() < 0.5 for _ in self.stages]
        self.as_obj = rng.random() < 0.4
        self.desc = [f"{self.end}{len(data)}"] + [("." if m else "|") + s.name + (str(s.n) if s.name in ("take", "skip") else "") for s, m in zip(self.stages, self.methods)]

    async def build(self):
        it = self.r.obj() if self.as_obj else self.r.agen()
        for s, m in zip(self.stages, self.methods):
            it = await s.real(it, m)
        if not self.stages:
            it = AsyncSeq(it)
        check(self.r.pulls == 0 and all(r.pulls == 0 for s in self.stages for r, _ in s.inner), "building the pipeline pulled from its source", pipeline=self.desc)
        check(not any(s.rlog for s in self.stages), "building the pipeline called a callback", pipeline=self.desc)
        return it

    def ref(self):
        it = self.f.sync()
        for s in self.stages:
            it = s.ref(it)
        return it

    def compare(self, when):
        for what, r, f in [("source", self.r, self.f)] + [("inner source of " + s.name, r, f) for s in self.stages for r, f in s.inner]:
            if r.pulls > f.pulls:
                fail(f"{when}: more was pulled from the {what} than needed", pulled=r.pulls, needed=f.pulls, pipeline=self.desc)
        for s in self.stages:
            if len(s.rlog) > len(s.flog):
                fail(f"{when}: the callback of {s.name} ran more often than needed", pipeline=self.desc)
            for a, b in zip(s.rlog, s.flog):
                check(len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)), f"{when}: the callback of {s.name} got other arguments", got=a, want=b, pipeline=self.desc)


def step(it):
    try:
        return ("item", next(it))
    except StopIteration:
        return ("end", None)
    except Boom as e:
        return ("exc", e)
    except Hang:
        return ("hang", None)


async def astep(it):
    try:
        return ("item", await it.__anext__())
    except StopAsyncIteration:
        return ("end", None)
    except Boom as e:
        return ("exc", e)


def want_end(t):
    return bool(t.stages)


async def consume(t, limit, mon, aggregate=None):
    real = await t.build()
    ref = t.ref()
    if t.end in ("hang", "endless") :
        mon.ev("hanging_source" if t.end == "hang" else "endless")
    it = real.__aiter__()
    n = 0
    while n < limit:
        want = step(ref)
        if want[0] == "hang":
            mon.ev("prefix_only")
            break
        got = await astep(it)
        if want[0] != got[0] or (want[0] == "item" and not same(got[1], want[1])) or (want[0] == "exc" and got[1] is not want[1]):
            fail("an async pipeline delivers something else than its definition", position=n, got=got, want=want, pipeline=t.desc)
        if n < 40 or n % 50 == 0 or want[0] != "item":
            t.compare(f"after {n + 1} items")
        if want[0] != "item":
            mon.ev({"end": "exhausted", "exc": "source_exc" if want[1] is t.exc else "callback_exc"}[want[0]])
            if want[0] == "end" and t.stages:
                check((await astep(it))[0] == "end", "an exhausted async pipeline delivered again", pipeline=t.desc)
            break
        n += 1
        mon.ev("items")
    else:
        mon.ev("prefix_only")
    if hasattr(it, "aclose"):
        await it.aclose()
    if want_end(t):
        t.compare("after leaving")
    mon.ev("suspensions", t.r.suspended)
    mon.sig(t.desc, t.r.delays, n, t.as_obj)
    mon.sample(f"{' '.join(t.desc)} delays={t.r.delays} consumed={n} pulls={t.r.pulls}")


def guarded(make, desc):
    try:
        return run_async(make)
    except Stuck:
        fail("consuming items that exist never completes", pipelines=desc)


def lockstep(rng, mon):
    t = Twin(rng)
    limit = rng.choice([0, 1, 2, 3, 5, 12])
    guarded(lambda: consume(t, limit, mon), [t.desc])


def bigs(rng, mon):
    """Long sources and counts."""
    n = big(rng, 520)
    t = Twin(rng, 3, n)
    mon.ev("bigs")
    guarded(lambda: consume(t, rng.choice([30, n, 3 * n]), mon), [t.desc])


def interleaved(rng, mon):
    ts = [Twin(rng, 3) for _ in range(rng.randint(2, 4))]
    limits = [rng.choice([1, 3, 12]) for _ in ts]

    async def go():
        await asyncio.gather(*[consume(t, n, mon) for t, n in zip(ts, limits)])

    guarded(go, [t.desc for t in ts])
    mon.ev("interleaved")


def fmodel(name, data, st, cb):
    if name == "fold":
        for x in data:
            st = cb(st, x)
        return st
    for x in reversed(data):
        st = cb(x, st)
    return st


def aggregates(rng, mon):
    kind = rng.choice(["fold", "fold_back", "length", "sum", "max", "min", "head", "head_lazy"])
    n = rng.choice([0, 1, 2, 3, 6, 11, 40]) if rng.random() < 0.97 else big(rng)
    d = delays(rng)
    exc = boom(rng, "source")
    end = "fail" if rng.random() < 0.2 else "end"
    if kind in ("max", "min"):
        data = [Eq(rng.randrange(4), i) for i in range(n)]
    elif kind == "sum":
        data = [rng.choice([rng.randint(-5, 5), 0.1, 1e16, -1e16, True, 0]) for _ in range(n)] if rng.random() < 0.5 else summands(rng, n)
    else:
        data = items(rng, n)
    if kind == "head_lazy":
        end = rng.choice(["hang", "fail", "endless", "end"])
        if not data and end == "hang":
            data = [None]
    src = Src(data, end, d, exc)
    log, flog = [], []
    at = rng.randrange(n + 1) if rng.random() < 0.2 else None
    bexc = boom(rng, "folder")

    def cb(log):
        def f(*a):
            i = len(log)
            log.append(a)
            if i == at:
                raise bexc
            return (i, len(a)) if i % 2 else a[i % 4 // 2]

        return f

    state = item(rng)

    def want():
        if kind in ("fold", "fold_back"):
            if end == "fail" and kind == "fold_back":
                return ("exc", exc)
            try:
                v = fmodel(kind, data, state, cb(flog))
            except Boom as e:
                return ("exc", e)
            return ("exc", exc) if end == "fail" else ("ok", v)
        if kind in ("head", "head_lazy"):
            if data:
                return ("ok", data[0])
            if end == "fail":
                return ("exc", exc)
            if end == "endless":
                return ("ok", ("e", 0))
            return ("exc", ValueError)
        if end == "fail":
            return ("exc", exc)
        if kind == "length":
            return ("ok", n)
        if kind == "sum":
            s = 0
            for x in data:
                s = s + x
            return ("ok", s)
        if not data:
            return ("exc", ValueError)
        return ("ok", (max if kind == "max" else min)(data))

    async def go():
        s = AsyncSeq(src.obj() if rng.random() < 0.5 else src.agen())
        try:
            if kind == "fold":
                v = await s.fold(cb(log), state)
            elif kind == "fold_back":
                v = await s.fold_back(cb(log), state)
            else:
                v = await getattr(s, kind.split("_")[0])()
            return ("ok", v)
        except (Boom, ValueError) as e:
            return ("exc", e)

    w = want()
    g = guarded(go, [kind, n, end])
    if w[0] != g[0]:
        fail(f"AsyncSeq.{kind}: wrong outcome", got=g, want=w, data=data, end=end)
    if w[0] == "ok":
        check(same_sum(g[1], w[1]) if kind == "sum" else same(g[1], w[1]), f"AsyncSeq.{kind} computes something else", got=g[1], want=w[1], data=data)
    elif w[1] is ValueError:
        check(type(g[1]) is ValueError, f"AsyncSeq.{kind} of an empty sequence", got=g[1])
    else:
        check(g[1] is w[1], f"AsyncSeq.{kind} changed an exception", got=g[1], want=w[1])
    check(len(log) == len(flog) and all(all(map(same, a, b)) and len(a) == len(b) for a, b in zip(log, flog)), f"AsyncSeq.{kind} called its folder differently", got=log, want=flog)
    if kind.startswith("head"):
        check(src.pulls == 1, "head pulled more than one item", pulls=src.pulls)
    mon.ev("aggregates")
    mon.sig(kind, n, end, tuple(map(repr, d)), at)


async def alist(it, limit=None):
    out = []
    if limit == 0:
        return out
    async for x in it:
        out.append(x)
        if limit is not None and len(out) >= limit:
            break
    return out


def sources(rng, mon):
    kind = rng.choice(["range", "srange", "empty", "repeat", "repeat_inf", "append_n", "long"])

    async def go():
        if kind in ("range", "srange"):
            a = [rng.randint(-6, 12)] if rng.random() < 0.4 else [rng.randint(-6, 8), rng.randint(-6, 12)]
            if len(a) == 2 and rng.random() < 0.6:
                a.append(rng.choice([-3, -1, 1, 2, 5]))
            got = await alist(asyncseq.range(*a) if kind == "range" else AsyncSeq.range(*a))
            check(got == list(range(*a)), f"async range{tuple(a)}", got=got)
            if kind == "srange":
                got = await alist(await AsyncSeq.range(*a).map(lambda x: x + 1))
                check(got == [x + 1 for x in range(*a)], f"mapped async range{tuple(a)}", got=got)
            mon.sig(kind, a)
        elif kind == "empty":
            check(await alist(asyncseq.empty()) == [] and await alist(AsyncSeq.empty()) == [], "empty async sequence has items")
        elif kind == "repeat":
            v, n = item(rng), rng.choice([0, 1, 2, 7, 300, big(rng), big(rng), 10000, 10001, 65537])
            got = await alist(asyncseq.repeat(v, n))
            check(len(got) == n and all(x is v for x in got), "async repeat", got=got[:5], n=n, length=len(got))
            mon.sig(kind, n)
        elif kind == "repeat_inf":
            v, n = item(rng), rng.choice([0, 1, 2, 500, 12000])
            got = await alist(await AsyncSeq(asyncseq.repeat(v)).take(n))
            check(len(got) == n and all(x is v for x in got), "endless async repeat", n=n, length=len(got))
            mon.sig(kind, n)
        elif kind == "append_n":
            parts = [items(rng) for _ in range(rng.randint(1, 6))]
            s = Src(parts[0], "end", delays(rng), None).agen()
            for p in parts[1:]:
                s = asyncseq.append(Src(p, "end", delays(rng), None).obj())(s)
            got = await alist(s)
            want = [x for p in parts for x in p]
            check(len(got) == len(want) and all(map(same, got, want)), "appended async sequences", got=got, want=want)
            mon.sig(kind, [len(p) for p in parts])
        else:
            n = rng.choice([2000, 5000])
            s = AsyncSeq(asyncseq.range(n))
            s = AsyncSeq(await (await s.map(lambda x: x * 2)).filter(lambda x: x % 3 == 0))
            k = rng.randrange(n)
            s = AsyncSeq(await s.skip(k))
            want = [x * 2 for x in range(n) if x * 2 % 3 == 0][k:]
            check(await alist(s) == want, "long async pipeline")
            check(await AsyncSeq(asyncseq.range(n)).fold_back(lambda x, st: x - st, 0) == fmodel("b", list(range(n)), 0, lambda x, st: x - st), "long fold_back")
            mon.sig(kind, n, k)

    guarded(go, kind)


SCALE = 10
WORKLOADS = {
    "lockstep": Workload(lockstep, 14000, 400000),
    "bigs": Workload(bigs, 300, 4000),
    "interleaved": Workload(interleaved, 2500, 60000),
    "aggregates": Workload(aggregates, 6000, 120000),
    "sources": Workload(sources, 1500, 20000),
}
