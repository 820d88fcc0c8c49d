from __future__ import annotations

import itertools

from expression import Nothing, Some, pipe
from expression.collections import Seq, seq

from vf.core import Workload, check, fail
from vf.gen import Boom, big, boom, Tok, same, sames

from .seqlib import Source, make_stage

PROP = "C09"
RULE = (
    "A case builds a pipeline of 1-6 lazy operators over an instrumented source (finite, infinite, or failing at a position; some of hundreds of items, with counts as large) next to the operators' "
    "minimal lazy definitions over an identical source; it checks that building pulled nothing, then steps both and after every item compares the item, "
    "the number of pulls of every source (not more than the definition's) and every callback's calls. Repeatable pipelines are iterated again, and twice "
    "at once under random interleavings. Non-trivial: at least one item consumed; distinct by pipeline, source and consumption."
)
ASSUMPTIONS = ["filter, scan, zip and unfold stages are one-shot and are not claimed repeatable"]
REQUIRED = ["steps", "infinite", "failing", "repeat", "interleaved", "built", "bigs"]


def mk(rng, n=None):
    return [Tok() if rng.random() < 0.3 else rng.choice([0, None, 1, "", False, 5]) for _ in range(rng.choice([0, 1, 2, 4, 6]) if n is None else n)]


class Twin:
    """The real pipeline and its definition over identical sources."""

    def __init__(self, rng, data, fail_at=None, infinite=False, repeatable=False, n=None, long=0):
        self.exc = boom(rng, "source")
        self.r = Source(data, fail_at, self.exc, infinite)
        self.f = Source(data, fail_at, self.exc, infinite)
        self.stages = [make_stage(rng, (lambda rng: mk(rng, rng.choice([0, 1, long, big(rng, 200)]))) if long else mk, repeatable_only=repeatable, long=long) for _ in range(n or rng.choice([1, 1, 2, 3, 4, 6]))]
        self.desc = []
        real = self.r
        for s in self.stages:
            m = rng.random() < 0.5
            self.desc.append(f"{'.' if m else '|'}{s.name}")
            real = s.real(real, m)
        self.real = real

    def sources(self):
        yield "source", self.r, self.f
        for s in self.stages:
            for a, b in s.inner:
                yield "inner source of " + s.name, a, b

    def ref(self):
        def gen():
            it = iter(self.f)
            for s in self.stages:
                it = s.ref(it)
            yield from it

        return gen()

    def quiet(self, when):
        for what, r, _ in self.sources():
            check(r.pulls == 0, f"{when} pulled from the {what}", pulls=r.pulls, pipeline=self.desc)
        for s in self.stages:
            check(not s.rlog, f"{when} called the callback of {s.name}", pipeline=self.desc)

    def compare(self, when):
        for what, r, f in self.sources():
            if r.pulls > f.pulls or r.ended > f.ended:
                fail(f"{when}: more was pulled from the {what} than needed", pulled=r.pulls, needed=f.pulls, ended=(r.ended, f.ended), pipeline=self.desc)
        for s in self.stages:
            if len(s.rlog) > len(s.flog):
                fail(f"{when}: the callback of {s.name} ran before its item was demanded", calls=len(s.rlog), needed=len(s.flog), pipeline=self.desc)


def nxt(it):
    try:
        return ("item", next(it))
    except StopIteration:
        return ("end", None)
    except Boom as e:
        return ("exc", e)


def lazy(rng, mon):
    lockstep(rng, mon, rng.choice(["finite", "finite", "infinite", "failing", "failing"]), mk(rng) or [1])


def bigs(rng, mon):
    """Long sources and counts, consumed far."""
    n = big(rng, 600)
    mon.ev("bigs")
    lockstep(rng, mon, rng.choice(["finite", "finite", "infinite", "failing"]), mk(rng, n), n)


def lockstep(rng, mon, kind, data, long=0):
    if kind == "finite" and rng.random() < 0.2:
        data = []
    fail_at = rng.randrange(len(data) + 1) if kind == "failing" else None
    t = Twin(rng, data, fail_at, kind == "infinite", long=long, n=rng.choice([1, 1, 2, 3]) if long else None)
    t.quiet("building the pipeline")
    mon.ev("built")
    mon.ev(kind)
    k = rng.choice([0, 1, 2, 3, 6, 12, 40]) if not long else rng.choice([1, 30, long, long * 3])
    a, b = iter(t.real), t.ref()
    t.quiet("asking for an iterator")
    n = 0
    for _ in range(k):
        # bound the definition's work: e.g. filter over an infinite source may drop everything
        if kind == "infinite" and t.f.pulls > 2000:
            break
        y = bounded(b, t.f, 3000)
        if y is None:
            break  # the definition itself would search for ever
        x = nxt(a)
        check(x[0] == y[0] and (same(x[1], y[1]) if x[0] == "item" else x[1] is y[1]), "outcome differs", got=x, want=y, pipeline=t.desc, consumed=n)
        t.compare(f"after {n + 1} items")
        n += 1
        mon.ev("steps")
        if x[0] != "item":
            break
    if n:
        mon.sig(kind, len(data), fail_at, tuple(t.desc), n)
        mon.sample(f"{kind} source of {len(data)}: {t.desc}, {n} steps, {t.r.pulls} pulls")


class _TooFar(Exception):
    pass


def bounded(it, src, limit):
    """Step the definition, but give up if it needs too many pulls."""
    if not src.infinite:
        return nxt(it)
    old_items, start = src.items, src.pulls

    class Capped(list):
        def __getitem__(self, i):
            if src.pulls - start > limit:
                raise _TooFar
            return list.__getitem__(self, i)

    src.items = Capped(old_items)
    try:
        return nxt(it)
    except _TooFar:
        return None
    finally:
        src.items = old_items


def repeat(rng, mon):
    """The same pipeline iterated again, and twice at once."""
    data = mk(rng, big(rng, 150) if rng.random() < 0.02 else None)
    t = Twin(rng, data, repeatable=True)
    want = list(t.ref())
    # collect with generator results is still repeatable: the callback makes a new one
    for i in range(rng.choice([2, 3])):
        got = list(t.real)
        check(sames(got, want), f"iteration {i + 1} differs", got=got[:30], want=want[:30], pipeline=t.desc)
        mon.ev("repeat")
    its = [iter(t.real) for _ in range(rng.choice([2, 3]))]
    outs: list[list] = [[] for _ in its]
    live = set(range(len(its)))
    order = []
    while live:
        i = rng.choice(sorted(live))
        order.append(i)
        r = nxt(its[i])
        if r[0] == "item":
            outs[i].append(r[1])
        else:
            live.discard(i)
        if rng.random() < 0.05 and len(live) > 1:
            j = rng.choice(sorted(live))
            live.discard(j)  # abandon one midway
            outs[j] = None  # type: ignore
        if len(order) > 2000:
            break
    for o in outs:
        if o is not None:
            check(sames(o, want), "interleaved iterations interfere", got=o[:30], want=want[:30], pipeline=t.desc)
            mon.ev("interleaved")
    # partial, then afresh
    part = list(itertools.islice(iter(t.real), len(want) // 2))
    check(sames(part, want[: len(want) // 2]) and sames(list(t.real), want), "iteration after a partial one differs", pipeline=t.desc)
    if want:
        mon.sig(tuple(t.desc), len(data), tuple(order[:20]))


def shapes(rng, mon):
    """Searches and heads over infinite or failing sources, unfold, delay, flattening of infinite inner sequences."""
    k = rng.randrange(1, 30)
    src = Source([0, 1, 2, 3], infinite=True)
    check(pipe(src, seq.try_find_index(lambda x: x == 3)).value == 3 and src.pulls == 4, "try_find_index over-reads", pulls=src.pulls)
    src = Source(list(range(k)), fail_at=k, exc=Boom(), infinite=False)
    check(pipe(src, seq.try_pick(lambda x: Some(x) if x == k - 1 else Nothing)).value == k - 1 and src.pulls == k, "try_pick over-reads", pulls=src.pulls)
    src = Source([7], infinite=True)
    check((seq.head(src) if rng.random() < 0.5 else Seq(src).head()) == 7 and src.pulls == 1, "head over-reads", pulls=src.pulls)
    calls: list = []

    def gen(s):
        calls.append(s)
        return Some((s, s + 1))

    u = pipe(0, seq.unfold(gen)) if rng.random() < 0.5 else Seq.unfold(gen, 0)
    check(not calls, "unfold ran before iteration", calls=calls)
    it = iter(u)
    got = [next(it) for _ in range(k)]
    check(got == list(range(k)) and len(calls) == k, "unfold over-reads", calls=len(calls), k=k)
    calls2: list = []

    def make():
        calls2.append(1)
        return [1, 2]

    d = seq.delay(make) if rng.random() < 0.5 else Seq.delay(make)
    check(not calls2, "delay ran its function before iteration")
    check(list(d) == [1, 2] and len(calls2) == 1 and list(d) == [1, 2] and len(calls2) == 2, "delay", calls=len(calls2))
    init: list = []

    def f(i):
        init.append(i)
        return -i

    inf = seq.init_infinite(f)
    check(not init, "init_infinite called its function before iteration")
    it = iter(pipe(inf, seq.map(lambda x: x - 1)))
    got = [next(it) for _ in range(k)]
    check(got == [-i - 1 for i in range(k)] and init == list(range(k)), "init_infinite over-reads", init=len(init))
    inner = Source([1, 2, 3], infinite=True)
    outer = Source([0], infinite=True)
    form = rng.randrange(4)
    fl = [
        lambda: Seq(outer).collect(lambda _: Seq(inner)),
        lambda: pipe(outer, seq.collect(lambda _: inner)),
        lambda: Seq(outer).map(lambda _: Seq(inner)).concat(),
        lambda: seq.concat(inner, outer),
    ][form]()
    it = iter(fl)
    check(inner.pulls == 0 and outer.pulls == 0, "flattening pulled before iteration")
    got = [next(it) for _ in range(k)]
    check(inner.pulls == k and outer.pulls <= 1, "flattening over-reads", inner=inner.pulls, outer=outer.pulls, form=form)
    # aggregates consume their source exactly once
    s1 = Source(list(range(k)))
    Seq(s1).fold(lambda a, x: a, 0)
    check(s1.pulls == k and s1.opened == 1, "fold re-reads its source", pulls=s1.pulls)
    mon.sig("shapes", k, form)
    mon.ev("steps", k)


SCALE = 15
WORKLOADS = {
    "lazy": Workload(lazy, 20000, 200000),
    "bigs": Workload(bigs, 250, 2500),
    "repeat": Workload(repeat, 6000, 60000),
    "shapes": Workload(shapes, 200, 2000),
}
