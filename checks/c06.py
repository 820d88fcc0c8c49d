from __future__ import annotations

import random
from collections import UserDict, UserList, deque
from collections.abc import Sequence

from expression import Nothing, Some, pipe
from expression.collections import Block, array as A, block as B
from expression.collections.array import TypeCode, TypedArray, float64, int8, int16, int32, int64, uint8, uint16, uint32, uint64

from vf import gen
from vf.core import Workload, check
from vf.gen import Boom, Tok, big, big_items, items, sames
from vf.sched import Scheduler, pause

from .c02 import Bomb

gen.ODD_EQUALITY = False
PROP = "C06"
RULE = (
    "A case keeps every block, typed array and source collection it makes, with a snapshot taken at creation, and runs 6-30 random operations on them, "
    "some aborted by a callback that raises at a chosen call; after each operation all snapshots are compared by item identity. Sources are mutated "
    "after use, and every new typed array is mutated to show aliasing. Threaded cases run 2-4 threads on shared blocks under a seeded scheduler. "
    "Non-trivial: at least 4 retained objects, one of them non-empty; distinct by the operation string and sizes."
)
ASSUMPTIONS = ["the bytearray given to a typed array constructor is adopted, not copied, and is not tested", "items themselves are not mutated"]
REQUIRED = ["fault", "source.mutated", "array.poked", "checked", "threads.switches", "big"]


def block_ops(rng, b, n):
    """(name, callback or None, thunk returning a new object or None)."""
    t = Tok()
    c = rng.choice([0, 1, n, n + 1, max(0, n - 1)])
    c1 = max(1, c)
    pf = rng.random() < 0.5

    def yes(*a):
        return hash(id(a[-1])) % 3 != 0

    ops = [
        ("append", None, lambda: pipe(b, B.append(b)) if pf else b.append(Block([t]))),
        ("add", None, lambda: b + b),
        ("cons", None, lambda: B.cons(t, b) if pf else b.cons(t)),
        ("choose", lambda x: Some(x) if yes(x) else Nothing, lambda f: pipe(b, B.choose(f)) if pf else b.choose(f)),
        ("collect", lambda x: Block([x, t]), lambda f: pipe(b, B.collect(f)) if pf else b.collect(f)),
        ("collectself", lambda x: b, lambda f: b.take(3).collect(f)),
        ("filter", yes, lambda f: pipe(b, B.filter(f)) if pf else b.filter(f)),
        ("map", lambda x: t, lambda f: pipe(b, B.map(f)) if pf else b.map(f)),
        ("mapi", lambda i, x: x, lambda f: pipe(b, B.mapi(f)) if pf else b.mapi(f)),
        ("starmap", lambda i, x: x, lambda f: pipe(b.indexed(), B.starmap(f)) if pf else b.indexed().starmap(f)),
        ("partition", yes, lambda f: (pipe(b, B.partition(f)) if pf else b.partition(f))[rng.randrange(2)]),
        ("fold", lambda s, x: s + 1, lambda f: (pipe(b, B.fold(f, 0)) if pf else b.fold(f, 0)) and None),
        ("foldappend", lambda s, x: s.append(x) or s, lambda f: Block(b.fold(f, []))),
        ("foldblock", lambda s, x: s.cons(x), lambda f: b.fold(f, b)),
        ("reduce", lambda s, x: x, lambda f: [b.cons(t).reduce(f) if pf else pipe(b.cons(t), B.reduce(f))] and None),
        ("forall", lambda x: True, lambda f: (b.forall(f) if pf else pipe(b, B.forall(f))) and None),
        ("sum_by", lambda x: 1, lambda f: (b.sum_by(f) if pf else pipe(b, B.sum_by(f))) and None),
        ("sort_with", lambda x: id(x) % 5, lambda f: pipe(b, B.sort_with(f)) if pf else b.sort_with(f, rng.random() < 0.5)),
        ("skip", None, lambda: pipe(b, B.skip(c)) if pf else b.skip(c)),
        ("take", None, lambda: pipe(b, B.take(c)) if pf else b.take(c)),
        ("skip_last", None, lambda: pipe(b, B.skip_last(c1)) if pf else b.skip_last(c1)),
        ("take_last", None, lambda: pipe(b, B.take_last(c1)) if pf else b.take_last(c1)),
        ("tail", None, lambda: b.tail() if n else None),
        ("zip", None, lambda: pipe(b, B.zip(b)) if pf else b.zip(b)),
        ("indexed", None, lambda: B.indexed(b) if pf else b.indexed()),
        ("slice", None, lambda: b[rng.choice([slice(None), slice(1, None), slice(None, None, -1), slice(0, c)])]),
        ("concat", None, lambda: B.concat([b, b.take(1), b])),
        ("of_seq", None, lambda: Block.of_seq(b)),
        ("init", None, lambda: Block(b)),
        ("unfold", lambda s: Some((s, s + 1)) if s < 4 else Nothing, lambda f: pipe(0, B.unfold(f)) if pf else Block.unfold(f, 0)),
        ("str", None, lambda: str(b) and None),
        ("dict", None, lambda: poke_list(b.dict())),
        ("eq", None, lambda: (b == Block([t])) and None),
        ("head", None, lambda: [b.try_head()] and None),
        ("tolist", None, lambda: poke_list(list(b))),
        ("sortb", None, lambda: b.map(id).sort(reverse=pf)),
        ("inplace", None, lambda: iadd(b, t)),
    ]
    name, cb, th = rng.choice(ops)
    if cb is None:
        return name, None, th
    bomb = Bomb(rng, cb, n)
    return name, bomb, lambda: th(bomb)


def iadd(b, t):
    c = b
    c += Block([t])
    return c


def poke_list(xs):
    xs.append("poison")
    xs.reverse()


KINDS = {
    "any": (None, lambda rng: rng.choice([1, "a", None, 2.5])),
    "anyint": (None, lambda rng: rng.randrange(-9, 9)),
    "anystr": (TypeCode.Any, lambda rng: rng.choice("zyxabc")),
    "byte": (TypeCode.Byte, lambda rng: rng.randrange(256)),
    "i8": (TypeCode.Int8, lambda rng: rng.randrange(-128, 128)),
    "i16": (TypeCode.Int16, lambda rng: rng.randrange(-300, 300)),
    "u32": (TypeCode.Uint32, lambda rng: rng.randrange(300)),
    "f64": (TypeCode.Double, lambda rng: rng.randrange(-9, 9) / 4),
}


def unsortable(f):
    try:
        return f()
    except TypeError:
        return None


def array_ops(rng, a, n):
    c = rng.choice([0, 1, n, n + 1, max(0, n - 1)])
    c1 = max(1, c)
    pf = rng.random() < 0.5

    def yes(x):
        return bool(x)

    ops = [
        ("map", lambda x: x, lambda f: pipe(a, A.map(f)) if pf else a.map(f)),
        ("choose", lambda x: Some(x) if yes(x) else Nothing, lambda f: a.choose(f)),
        ("collect", lambda x: TypedArray([x, x]), lambda f: a.collect(f)),
        ("collectself", lambda x: a, lambda f: a.take(2).collect(f)),
        ("filter", yes, lambda f: pipe(a, A.filter(f)) if pf else a.filter(f)),
        ("filterall", lambda x: True, lambda f: pipe(a, A.filter(f)) if pf else a.filter(f)),
        ("fold", lambda s, x: s + 1, lambda f: (pipe(a, A.fold(f, 0)) if pf else a.fold(f, 0)) and None),
        ("forall", lambda x: True, lambda f: a.forall(f) and None),
        ("sum_by", lambda x: 1, lambda f: (pipe(a, A.sum_by(f)) if pf else a.sum_by(f)) and None),
        ("indexed", None, lambda: a.indexed()),
        ("skip", None, lambda: a.skip(c)),
        ("skip_last", None, lambda: a.skip_last(c1)),
        ("take", None, lambda: pipe(a, A.take(c)) if pf else a.take(c)),
        ("take_last", None, lambda: pipe(a, A.take_last(c1)) if pf else a.take_last(c1)),
        ("tail", None, lambda: a.tail() if n else None),
        ("sort_with", lambda x: str(x), lambda f: a.sort_with(f)),
        ("sort", None, lambda: unsortable(lambda: a.sort())),
        ("sort_rev", None, lambda: unsortable(lambda: a.sort(reverse=True))),
        ("sort_with_rev", lambda x: str(x), lambda f: a.sort_with(f, True)),
        ("sum", None, lambda: unsortable(lambda: A.sum(a) if pf else a.sum()) and None),
        ("queries", None, lambda: [A.try_head(a), a.is_empty(), len(a), 3 in a, a.count(3), list(reversed(a))] and None),
        ("head", None, lambda: [a.head(), a.item(0), pipe(a, A.item(0))] and None if n else None),
        ("of_seq", None, lambda: A.of_seq(a) if pf else TypedArray.of_seq(a)),
        ("of", None, lambda: A.of(*a) if pf else TypedArray.of(*a)),
        ("unfold", lambda s: Some((s, s + 1)) if s < 4 else Nothing, lambda f: pipe(0, A.unfold(f)) if pf else TypedArray.unfold(f, 0)),
        ("init", None, lambda: TypedArray(a)),
        ("init2", None, lambda: TypedArray(a, a.typecode)),
        ("slice", None, lambda: TypedArray(list(a[rng.choice([slice(None), slice(1, None)])]))),
        ("str", None, lambda: str(a) and None),
        ("eq", None, lambda: (a == TypedArray([1])) and None),
    ]
    name, cb, th = rng.choice(ops)
    if cb is None:
        return name, None, th
    bomb = Bomb(rng, cb, n)
    return name, bomb, lambda: th(bomb)


class Kept:
    def __init__(self, obj, want, label):
        self.obj, self.want, self.label = obj, list(want), label

    def verify(self, hist):
        got = list(self.obj)
        if not sames(got, self.want):
            check(False, f"{self.label} changed", got=got[:30], want=self.want[:30], hist=hist)


def attempt(name, bomb, thunk, mon, hist):
    try:
        r = thunk()
        check(bomb is None or not bomb.fired, f"{name}: the callback's exception was swallowed", hist=hist)
        return r
    except Boom as e:
        check(bomb is not None and e is bomb.exc, f"{name}: the callback's exception was replaced", got=e, hist=hist)
        mon.ev("fault")
        return None


class Sub(list):
    pass


class Held:
    """A collection that reads from a list."""

    def __init__(self, xs):
        self.inner = list(xs)

    def __iter__(self):
        return iter(self.inner)

    def __len__(self):
        return len(self.inner)


class HeldSeq(Held, Sequence):
    def __getitem__(self, i):
        return self.inner[i]


def source(rng, xs):
    k = rng.randrange(12)
    if k < 3:
        return list(xs)
    if k < 5:
        return dict(enumerate(xs))
    return [tuple, deque, UserList, Sub, Held, HeldSeq, lambda xs: UserDict(enumerate(xs))][k - 5](xs)


def blocks(rng, mon):
    large = rng.random() < 0.03
    xs = big_items(rng) if large else items(rng)
    if large:
        mon.ev("big")
    src = source(rng, xs)
    how = rng.choice([Block, Block.of_seq, B.of_seq])
    view = src.values() if isinstance(src, (dict, UserDict)) else src
    b = how(view)
    check(sames(list(view), xs), "the source was modified", got=list(view), want=xs)
    kept = [Kept(b, xs, "the block")]
    if isinstance(src, (list, UserList)):
        src.append("poison")
        src[0:1] = []
        mon.ev("source.mutated")
    elif isinstance(src, deque):
        src.append("poison")
        src.popleft()
        mon.ev("source.mutated")
    elif isinstance(src, (dict, UserDict)):
        src.clear()
        mon.ev("source.mutated")
    elif isinstance(src, Held):
        src.inner.append("poison")
        mon.ev("source.mutated")
    hist: list = [type(src).__name__, how.__name__, len(xs)]
    kept[0].verify(hist)
    for _ in range(rng.choice([5, 10]) if large else rng.choice([6, 15, 30])):
        k = rng.choice(kept)
        name, bomb, thunk = block_ops(rng, k.obj, len(k.want))
        hist.append(name)
        r = attempt(name, bomb, thunk, mon, hist)
        if isinstance(r, Block) and len(r) < (5000 if large else 80):
            kept.append(Kept(r, list(r), f"a block made by {name}"))
        for q in kept:
            q.verify(hist)
        mon.ev("checked", len(kept))
    if len(kept) >= 4 and any(k.want for k in kept):
        mon.sig(tuple(hist), tuple(len(k.want) for k in kept))
        mon.sample(f"{hist}")


def arrays(rng, mon):
    kind = rng.choice(list(KINDS))
    tc, g = KINDS[kind]
    large = rng.random() < 0.03
    xs = [g(rng) for _ in range(big(rng) if large else rng.choice([0, 1, 2, 5, 9]))]
    src = rng.choice([list, tuple, list, deque, UserList])(xs)
    a = TypedArray(src, tc) if tc else TypedArray(src)
    hist: list = [kind, len(xs)]
    check(sames(src, xs), "the source was modified", got=src, want=xs)
    kept = [Kept(a, list(a), "the array")]
    check(list(a) == xs, "array contents", got=list(a), want=xs)
    if not isinstance(src, tuple):
        src.append(99)
        if len(src) > 1:
            del src[0]
        mon.ev("source.mutated")
    kept[0].verify(hist)
    for _ in range(rng.choice([5, 10]) if large else rng.choice([6, 15, 30])):
        k = rng.choice(kept)
        name, bomb, thunk = array_ops(rng, k.obj, len(k.want))
        hist.append(name)
        r = attempt(name, bomb, thunk, mon, hist)
        for q in kept:
            q.verify(hist)
        if isinstance(r, TypedArray) and len(r) < (5000 if large else 60):
            # mutate the new array: nothing else may move
            poke = rng.randrange(5)
            if len(r) and poke == 0:
                r[0] = r[-1]
            elif len(r) and poke == 1:
                del r[0]
            elif len(r) and poke == 2:
                r.insert(0, r[0])
            elif len(r) and poke == 3:
                r.reverse()
            elif len(r):
                r.append(r[0])
            mon.ev("array.poked")
            hist.append("poke")
            for q in kept:
                q.verify(hist)
            kept.append(Kept(r, list(r), f"an array made by {name}"))
        elif isinstance(r, TypedArray):
            pass
        mon.ev("checked", len(kept))
    # now mutate an old one: its derivatives must not move
    for k in rng.sample(kept, min(3, len(kept))):
        if len(k.obj):
            k.obj[0] = k.obj[len(k.obj) - 1]
            k.obj.append(k.obj[0])
            k.want = list(k.obj)
            hist.append("poke old " + k.label)
            for q in kept:
                q.verify(hist)
            mon.ev("array.poked")
    if len(kept) >= 4 and any(k.want for k in kept):
        mon.sig(tuple(hist), tuple(len(k.want) for k in kept))


def typed_small(rng, mon):
    """The element classes select the storage; the operations must still copy."""
    cls = rng.choice([int8, int16, int32, int64, uint8, uint16, uint32, uint64, float64])
    xs = [cls(rng.randrange(100)) for _ in range(rng.randrange(1, 6))]
    a = TypedArray(xs) if rng.random() < 0.5 else TypedArray.of(*xs)
    want = list(a)
    ds = [a.take(99), a.skip(0), a.take_last(99), a.filter(lambda x: True), a.map(lambda x: x), a.sort(), TypedArray.of_seq(a)]
    for d in ds:
        d[0] = 1
        d.append(2)
        check(list(a) == want, "an array changed through a derived one", got=list(a), want=want)
        mon.ev("array.poked")
    mon.sig("typed", cls.__name__, len(xs), tuple(map(int, xs)))


def threads(rng, mon):
    xs = [Tok() for _ in range(rng.choice([1, 4, 9]))]
    shared = [Kept(Block(xs), xs, "the shared block")]
    s = Scheduler(rng, opcodes=rng.random() < 0.2)
    hists = []

    def worker(wr, hist):
        def run():
            for _ in range(wr.choice([3, 6, 9])):
                k = wr.choice(shared)
                name, bomb, thunk = block_ops(wr, k.obj, len(k.want))
                hist.append(name)
                pause()
                r = attempt(name, bomb, thunk, mon, hist)
                pause()
                if isinstance(r, Block) and len(r) < 60:
                    shared.append(Kept(r, list(r), f"a block made by {name}"))
                k.verify(hist)
                mon.ev("checked")

        return run

    for _ in range(rng.choice([2, 3, 4])):
        h: list = []
        hists.append(h)
        s.spawn(worker(random.Random(rng.getrandbits(64)), h))
    s.run()
    for w in s.workers:
        if w.error is not None:
            raise w.error
    for k in shared:
        k.verify(hists)
    mon.ev("threads.switches", s.switches)
    mon.sig(str(hists), s.signature())


SCALE = 10.2
WORKLOADS = {
    "blocks": Workload(blocks, 5000, 50000),
    "arrays": Workload(arrays, 4000, 40000),
    "typed": Workload(typed_small, 300, 3000),
    "threads": Workload(threads, 500, 5000),
}
