from __future__ import annotations

import inspect

from expression import effect
from expression.collections import Block, Seq, seq

from vf.core import Workload, check, fail
from vf.gen import Boom, big, boom, BoomBase, Eq, Tok, as_member, nameless, value
from vf.sched import Scheduler, pause

PROP = "C19"
RULE = (
    "A case builds a random sequence-computation body (plain yields of hostile values, yields from lists, tuples, blocks, sequences, lazy pipelines, generators, other computations and "
    "recursive computations, loops, branches, try/finally, returned values, exceptions) and compares the items of the resulting sequence (identity, order, number) with the list a direct interpreter "
    "produces; the sequence is iterated again, by several iterators at once and from several threads under a seeded scheduler, calls are repeated and interleaved, and bodies grow to tens of thousands "
    "of items. Non-trivial: at least one statement; distinct by body shape."
)
ASSUMPTIONS = ["a returned value that is not None is the last item"]
REQUIRED = ["items", "sub:list", "sub:block", "sub:seq", "sub:gen", "sub:comp", "sub:lazy", "sub:tuple", "returned", "raised", "reiterated", "at_once", "threads", "switches", "long", "recursive", "pipelined", "pieces"]


def sub_source(rng, kind, data, comp):
    if kind == "list":
        return list(data)
    if kind == "tuple":
        return tuple(data)
    if kind == "block":
        return Block(data)
    if kind == "seq":
        return rng.choice([lambda: Seq(data), lambda: seq.of_iterable(data), lambda: Seq.of(*data)])()
    if kind == "lazy":
        return Seq(data).map(lambda x: x).filter(lambda x: True)
    if kind == "gen":
        return (x for x in data)
    return comp(data)


@effect.seq()
def echo(data):
    for x in data:
        yield x


def item(rng):
    r = rng.random()
    if r < 0.04:
        # results of sequence computations, and of their builder, as plain items
        return echo([1, rng.choice([2, echo([3])])])
    if r < 0.06:
        return rng.choice([lambda: effect.seq().combine([1], echo([2])), lambda: effect.seq().zero(), lambda: effect.seq().return_(Tok()), lambda: Seq([1, 2]).map(lambda x: x)])()
    return value(rng, 1) if rng.random() < 0.8 else Tok()


class Body:
    def __init__(self, rng, n=None, hazards=True):
        self.rng = rng
        self.st = self.block(rng.choice([0, 1, 2, 3, 5, 9]) if n is None else n, 2, hazards)
        self.ret = item(rng) if rng.random() < 0.4 else None
        self.exc = None

    def block(self, n, depth, hazards):
        rng, out = self.rng, []
        for _ in range(n):
            r = rng.random()
            if hazards and r < 0.03:
                out.append(("raise", boom(rng, "b", effect=False) if rng.random() < 0.7 else BoomBase("b")))
            elif r < 0.45:
                out.append(("yield", item(rng)))
            elif r < 0.75 or depth <= 0:
                kind = rng.choice(["list", "tuple", "block", "seq", "lazy", "gen", "comp"])
                out.append(("from", kind, [item(rng) for _ in range(rng.choice([0, 1, 2, 5]) if rng.random() < 0.98 else big(rng, 300))]))
            elif r < 0.85:
                out.append(("loop", rng.randrange(4), self.block(rng.randint(1, 2), depth - 1, hazards)))
            elif r < 0.93:
                out.append(("try", self.block(rng.randint(1, 2), depth - 1, hazards)))
            else:
                out.append(("rec",))
        return out

    def run(self, block, comp, depth, log, mon):
        for s in block:
            if s[0] == "yield":
                yield s[1]
            elif s[0] == "from":
                if mon:
                    mon.ev("sub:" + s[1])
                yield from sub_source(self.rng, s[1], s[2], echo)
            elif s[0] == "loop":
                for _ in range(s[1]):
                    yield from self.run(s[2], comp, depth, log, mon)
            elif s[0] == "try":
                try:
                    yield from self.run(s[1], comp, depth, log, mon)
                finally:
                    log.append("f")
            elif s[0] == "rec":
                if depth > 0:
                    if mon:
                        mon.ev("recursive")
                    yield from comp(self, depth - 1, log, mon)
            else:
                raise s[1]

    def model(self, depth):
        """(items, exception or None)"""
        out = []

        def go(block):
            for s in block:
                if s[0] == "yield":
                    out.append(s[1])
                elif s[0] == "from":
                    out.extend(s[2])
                elif s[0] == "loop":
                    for _ in range(s[1]):
                        go(s[2])
                elif s[0] == "try":
                    go(s[1])
                elif s[0] == "rec":
                    if depth > 0:
                        items, e = self.model(depth - 1)
                        if e is not None:
                            raise e
                        out.extend(items)
                else:
                    raise s[1]

        try:
            go(self.st)
        except (Exception, BoomBase) as e:
            return out, e
        if self.ret is not None:
            out.append(self.ret)
        return out, None

    def shape(self):
        def sh(b):
            return [(s[0], len(s[2]) if s[0] == "from" else 0, s[1] if s[0] == "from" else 0, sh(s[-1]) if s[0] in ("loop", "try") else 0) for s in b]

        return (sh(self.st), self.ret is None)


@effect.seq()
def comp(body, depth, log, mon):
    yield from body.run(body.st, comp, depth, log, mon)
    return body.ret


def ids(xs):
    return [*map(id, xs)]


def judge(got, want, what, body, depth):
    if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
        fail(f"{what}: a sequence computation yields other items than its body", got=got, want=want, body=body.st, ret=body.ret, depth=depth)


def bodies(rng, mon):
    body = Body(rng)
    depth = rng.choice([0, 0, 1, 2])
    want, exc = body.model(depth)
    for rep in range(rng.choice([1, 1, 2])):
        try:
            xs = comp(body, depth, [], mon)
            got = list(xs)
            e = None
        except (Exception, BoomBase) as ex:
            e = ex
        check(e is exc, "a sequence computation fails differently from its body", got=e, want=exc, body=body.st)
        if exc is not None:
            mon.ev("raised")
            continue
        judge(got, want, "a call", body, depth)
        mon.ev("items", len(got))
        if body.ret is not None:
            mon.ev("returned")
        judge(list(xs), want, "iterating again", body, depth)
        mon.ev("reiterated")
        # several iterators at once
        its = [iter(xs) for _ in range(rng.randint(2, 3))]
        outs = [[] for _ in its]
        live = list(range(len(its)))
        while live:
            i = rng.choice(live)
            try:
                outs[i].append(next(its[i]))
            except StopIteration:
                live.remove(i)
        for o in outs:
            judge(o, want, "iterators at once", body, depth)
        mon.ev("at_once")
        # as a sequence for the operators, and partially consumed
        k = rng.randrange(len(want) + 2)
        judge(list(Seq(xs).take(k)), want[:k], "taking from it", body, depth)
        judge(list(seq.skip(k)(xs)), want[k:], "skipping in it", body, depth)
        judge([a for (a,) in Seq(xs).map(lambda a: (a,))], want, "mapping over it", body, depth)
        mon.ev("pipelined")
    if body.st:
        mon.sig(body.shape(), depth, exc is None)
        mon.sample(f"{body.shape()} -> {len(want)} items, {exc!r}")


def threads(rng, mon):
    bs = [Body(rng, rng.randint(1, 6), hazards=False) for _ in range(2)]
    shared = bs[0]
    want0, _ = shared.model(1)
    xs = comp(shared, 1, [], None)
    s = Scheduler(rng)
    res = []

    def run(body, depth):
        def go():
            out = []
            for x in comp(body, depth, [], None):
                out.append(x)
                pause()
            res.append((body, depth, out, body.model(depth)[0]))

        return go

    def iterate():
        out = []
        for x in xs:
            out.append(x)
            pause()
        res.append((shared, 1, out, want0))

    for _ in range(rng.randint(2, 4)):
        if rng.random() < 0.4:
            s.spawn(iterate)
        else:
            s.spawn(run(rng.choice(bs), rng.choice([0, 1])))
    s.run()
    for w in s.workers:
        check(w.error is None, "a concurrent run failed", error=w.error)
    for body, depth, out, want in res:
        judge(out, want, "a concurrent run", body, depth)
    mon.ev("threads", len(res))
    mon.ev("switches", s.switches)
    mon.sig("threads", s.signature(), shared.shape())


def long_bodies(rng, mon):
    n = rng.choice([400, 2500, 9000])
    kind = rng.choice(["yield", "from", "mixed", "nested", "cond"])
    r = rng.choice([None, "last"])

    @effect.seq()
    def tree(lo, hi):
        if hi - lo <= 1:
            if hi > lo:
                yield lo
            return
        mid = (lo + hi) // 2
        yield from tree(lo, mid)
        yield from tree(mid, hi)

    @effect.seq()
    def f():
        if kind == "yield":
            for i in range(n):
                yield i
        elif kind == "from":
            yield from Seq(range(n))
        elif kind == "mixed":
            for i in range(n // 4):
                yield 4 * i
                yield from [4 * i + 1, 4 * i + 2]
                yield 4 * i + 3
        elif kind == "cond":
            for i in range(n * 2):
                if i % 2 == 0:
                    yield i // 2
        else:
            yield from tree(0, n)
        return r

    want = list(range(n)) + ([r] if r else [])
    xs = f()
    for _ in range(2):
        got = list(xs)
        check(got == want, "a long sequence computation", kind=kind, n=n, got=len(got), want=len(want))
    mon.ev("long")
    mon.sig("long", kind, n, r)


def small(rng, mon):
    """Bodies with a single statement, no yield, or None and falsy items."""
    v = item(rng)
    if inspect.isgenerator(v):
        v = Tok()  # what a body returning a generator object means is not specified
    falsies = [None, 0, "", False, (), None]
    rng.shuffle(falsies)

    @effect.seq()
    def single():
        yield v

    @effect.seq()
    def only_return():
        return v
        yield

    @effect.seq()
    def plain():
        return v

    @effect.seq()
    def nothing():
        if False:
            yield 1

    @effect.seq()
    def fals():
        for x in falsies:
            yield x

    @effect.seq()
    def fals_from():
        yield from falsies
        yield from iter(falsies)

    def given(*a, **kw):
        yield a
        yield from a
        return kw["k"]

    a = (v, Tok())
    m, first = as_member(rng, effect.seq()(given)) if rng.random() < 0.6 else (effect.seq()(nameless(rng, given)), ())
    k = Tok()
    got = list(m(*a, k=k))
    check(len(got) == 2 + len(first + a) and ids(got[0]) == ids(first + a) and ids(got[1:-1]) == ids(first + a) and got[-1] is k, "a sequence computation called through its class", got=got, want=first + a)
    e = [] if v is None else [v]
    for f, want in ((single, [v]), (only_return, e), (plain, e), (nothing, []), (fals, falsies), (fals_from, falsies * 2)):
        xs = f()
        for _ in range(2):
            got = list(xs)
            check(ids(got) == ids(want), "a small sequence computation", body=f.__name__, got=got, want=want)
    mon.sig("small", type(v).__name__)


def pieces(rng, mon):
    """The builder's own bind, combine, return and zero, called directly."""
    b = effect.seq()
    xs, ys = [item(rng) for _ in range(rng.randrange(5))], [item(rng) for _ in range(rng.randrange(4))]
    subs = [[item(rng) for _ in range(rng.randrange(4))] for _ in xs]
    calls = []

    def fn(x):
        calls.append(x)
        return rng.choice([list, tuple, Block, Seq, iter])(subs[len(calls) - 1])

    wrap = rng.choice([list, tuple, Block, Seq])
    got = list(b.bind(wrap(xs), fn))
    want = [y for s in subs for y in s]
    check(ids(got) == ids(want), "builder bind", got=got, want=want)
    check(ids(calls) == ids(xs), "builder bind: calls", got=calls, want=xs)
    c = b.combine(wrap(xs), wrap(ys))
    for _ in range(2):
        check(ids(list(c)) == ids(xs + ys), "builder combine", got=list(c), want=xs + ys)
    d = b.combine(b.combine(c, c), b.combine(wrap(ys), c))
    check(ids(list(d)) == ids((xs + ys) * 2 + ys + xs + ys), "nested builder combine", got=list(d))
    v = item(rng)
    check(ids(list(b.return_(v))) == ids([v]), "builder return_", v=v)
    check(ids(list(b.return_from(wrap(xs)))) == ids(xs), "builder return_from")
    check(list(b.zero()) == [], "builder zero")
    mon.ev("pieces")
    mon.sig("pieces", len(xs), len(ys), [len(s) for s in subs])


SCALE = 10.2
WORKLOADS = {
    "bodies": Workload(bodies, 8000, 150000),
    "threads": Workload(threads, 800, 12000),
    "long_bodies": Workload(long_bodies, 80, 600),
    "pieces": Workload(pieces, 500, 5000),
    "small": Workload(small, 500, 5000),
}

_ = Eq
