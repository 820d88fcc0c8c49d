"""Stages of sequence pipelines: the real operator, and its lazy definition."""

from __future__ import annotations

import zlib
from collections import deque

from expression import Error, Nothing, Ok, Some, pipe
from expression.collections import Block, Map, Seq, array, seq

from vf.core import check
from vf.gen import BIG, TRUTHY, UNTRUE, Log


def _id(x):
    return x


def h(salt, *xs):
    return zlib.crc32(f"{salt}/{xs!r}".encode())


FLUENT = {"map", "mapi", "choose", "collect", "append", "append0", "append2", "take", "skip", "tail", "pairwise", "starmap", "concat", "filter"}


# What a callback may return besides something made of its arguments.
RESULTS = [None, 0, False, "", (), [], {}, 0.0, Nothing, Some(None), Some(0), Ok(None), Error(1), Seq([1, 2]), Block([3]), [1, 2], "ab", {"k": 1}, ValueError(1), NotImplemented, ..., range(2)]


class Stage:
    """real(src, form) applies the operator; ref(it) is its definition as a generator."""

    def __init__(self, name, real, ref, repeatable=True, inner=()):
        self.name = name
        self._real, self._ref = real, ref
        self.repeatable = repeatable
        self.rlog, self.flog = Log(), Log()
        self.inner = inner  # instrumented inner sources: (real Source, ref Source)

    def real(self, src, method):
        """method: call the Seq method (src is wrapped if needed), else the function in pipe form."""
        if method and not isinstance(src, Seq):
            src = Seq(src)
        out = self._real(self, src, method)
        if method and self.name.split("(")[0].split("/")[0] in FLUENT:
            check(isinstance(out, Seq), f"the fluent form of {self.name} does not give a sequence that can be chained", got=type(out))
        return out

    def ref(self, it):
        return self._ref(self, it)

    def __repr__(self):
        return self.name


class Source:
    """A repeatable source that counts what is pulled; may fail at one position."""

    def __init__(self, items, fail_at=None, exc=None, infinite=False):
        self.items, self.fail_at, self.exc, self.infinite = items, fail_at, exc, infinite
        self.pulls = 0  # items handed out, over all iterations
        self.opened = 0
        self.ended = 0

    def __iter__(self):
        self.opened += 1
        return self._gen()

    def _gen(self):
        i = 0
        while self.infinite or i < len(self.items):
            self.pulls += 1
            if i == self.fail_at:
                raise self.exc
            yield self.items[i % len(self.items)] if self.infinite else self.items[i]
            i += 1
        self.ended += 1


def truth(salt, yes):
    """Something true (or not), not always a bool, the same for the same salt."""
    xs = TRUTHY if yes else UNTRUE
    return xs[salt % len(xs)]


def make_stage(rng, mk_items, repeatable_only=False, twin=None, finite_inner=True, long=0):
    """A random stage. mk_items(rng) gives the items of an inner source; long: about that many items flow."""
    salt = rng.randrange(1 << 30)
    mod = rng.choice([1, 2, 3, 5])
    c = rng.choice([0, 1, 1, 2, 3, 5, 8])
    if long:
        c = max(0, rng.choice([rng.randrange(long + 2), rng.choice(BIG), long - rng.randrange(4), long + 1]))

    def keep(x):
        k = h(salt, x)
        return truth(k // 64, k % (mod + 1) != 0)

    def f(*x):
        k = h(salt, "f", x)
        if k % 4 == 0:
            return RESULTS[k // 4 % len(RESULTS)]
        return (salt % 7, *x)

    names = ["map", "map", "mapi", "choose", "collect", "append", "append0", "append2", "take", "take", "skip", "tail", "pairwise", "starmap", "map2", "map3", "concat", "delay", "rewrap"]
    if not repeatable_only:
        names += ["filter", "filter", "scan", "zip", "zipfn"]
    name = rng.choice(names)

    if name == "map":
        return Stage(
            "map",
            lambda s, src, m: src.map(s.rlog.wrap("f", f)) if m else pipe(src, seq.map(s.rlog.wrap("f", f))),
            lambda s, it: (s.flog.wrap("f", f)(x) for x in it),
        )
    if name == "mapi":
        return Stage(
            "mapi",
            lambda s, src, m: src.mapi(s.rlog.wrap("f", f)) if m else pipe(src, seq.mapi(s.rlog.wrap("f", f))),
            lambda s, it: (s.flog.wrap("f", f)(i, x) for i, x in enumerate(it)),
        )
    if name == "choose":

        def chooser(x):
            return Some(f(x)) if keep(x) else Nothing

        def ref(s, it):
            g = s.flog.wrap("f", chooser)
            for x in it:
                r = g(x)
                if r.is_some():
                    yield r.value

        return Stage("choose", lambda s, src, m: src.choose(s.rlog.wrap("f", chooser)) if m else pipe(src, seq.choose(s.rlog.wrap("f", chooser))), ref)
    if name == "collect":
        kind = rng.randrange(10)

        def sub(x):
            n = h(salt, x) % 3
            if long and n and h(salt, x) % 41 == 0:
                n = BIG[h(salt, x) // 41 % 20]
            xs = [(x, i) for i in range(n)]
            if kind == 4:
                return dict.fromkeys(range(n), "v")
            if kind == 5:
                return ("abc" * n)[:n]
            if kind == 6:
                return {i: y for i, y in enumerate(xs)}.values()
            if kind == 7:
                return Map.of_seq((i, y) for i, y in enumerate(xs))
            if kind == 8:
                return bytes(n)
            return [xs, tuple(xs), Seq(xs), (y for y in xs), 0, 0, 0, 0, 0, deque(xs) if salt % 2 else Block(xs)][kind]

        def ref(s, it):
            g = s.flog.wrap("f", sub)
            for x in it:
                yield from g(x)

        return Stage("collect", lambda s, src, m: src.collect(s.rlog.wrap("f", sub)) if m else pipe(src, seq.collect(s.rlog.wrap("f", sub))), ref)
    if name in ("append", "append0", "append2"):
        k = {"append": 1, "append0": 0, "append2": 2}[name]
        data = [mk_items(rng) for _ in range(k)]
        rs, fs = [Source(d) for d in data], [Source(d) for d in data]

        def ref(s, it):
            yield from it
            for o in fs:
                yield from o

        return Stage(name, lambda s, src, m: src.append(*rs) if m else pipe(src, seq.append(*rs)), ref, inner=list(zip(rs, fs)))
    if name == "concat":
        data = [mk_items(rng) for _ in range(rng.randrange(3))]
        rs, fs = [Source(d) for d in data], [Source(d) for d in data]

        def ref(s, it):
            yield from it
            for o in fs:
                yield from o

        # the method flattens a sequence of sequences
        return Stage(
            "concat",
            lambda s, src, m: Seq([src, *(Seq(r) for r in rs)]).concat() if m else seq.concat(src, *rs),
            ref,
            inner=list(zip(rs, fs)),
        )
    if name == "take":

        def ref(s, it):
            if c <= 0:
                return
            for i, x in enumerate(it):
                yield x
                if i == c - 1:
                    return

        return Stage(f"take({c})", lambda s, src, m: src.take(c) if m else pipe(src, seq.take(c)), ref)
    if name == "skip":

        def ref(s, it):
            for i, x in enumerate(it):
                if i >= c:
                    yield x

        return Stage(f"skip({c})", lambda s, src, m: src.skip(c) if m else pipe(src, seq.skip(c)), ref)
    if name == "tail":

        def ref(s, it):
            for i, x in enumerate(it):
                if i >= 1:
                    yield x

        return Stage("tail", lambda s, src, m: src.tail() if m else pipe(src, seq.tail), ref)
    if name == "pairwise":

        def ref(s, it):
            first = True
            prev = None
            for x in it:
                if not first:
                    yield (prev, x)
                prev, first = x, False

        return Stage("pairwise", lambda s, src, m: src.pairwise() if m else pipe(src, seq.pairwise), ref)
    if name in ("starmap", "map2", "map3"):
        k = {"starmap": rng.choice([0, 1, 1, 2, 3, 4]), "map2": 2, "map3": 3}[name]
        shape = rng.randrange(4)

        def widen(x):
            return tuple(x if shape == 0 else (x, i) if shape < 3 else (None, (), x, 0)[i] for i in range(k))

        def ref(s, it):
            g = s.flog.wrap("f", f)
            for x in it:
                yield g(*widen(x))

        fn = {"starmap": seq.starmap, "map2": seq.map2, "map3": seq.map3}[name]

        def real(s, src, m):
            g = s.rlog.wrap("f", f)
            if m:
                return src.map(widen).starmap(g)
            return pipe(src, seq.map(widen), fn(g))

        return Stage(f"{name}/{k}", real, ref)
    if name == "filter":

        def ref(s, it):
            g = s.flog.wrap("f", keep)
            for x in it:
                if g(x):
                    yield x

        return Stage("filter", lambda s, src, m: src.filter(s.rlog.wrap("f", keep)) if m else pipe(src, seq.filter(s.rlog.wrap("f", keep))), ref, repeatable=False)
    if name == "scan":
        init = rng.choice([0, None, ()])

        def scanner(st, x):
            return h(salt, st, x) % 1000

        def ref(s, it):
            g = s.flog.wrap("f", scanner)
            st = init
            yield st
            for x in it:
                st = g(st, x)
                yield st

        return Stage("scan", lambda s, src, m: src.scan(s.rlog.wrap("f", scanner), init) if m else pipe(src, seq.scan(s.rlog.wrap("f", scanner), init)), ref, repeatable=False)
    if name in ("zip", "zipfn"):
        data = mk_items(rng)
        r, fsrc = Source(data), Source(data)
        if name == "zip":

            def ref(s, it):
                b = iter(fsrc)
                for x in it:
                    try:
                        y = next(b)
                    except StopIteration:
                        return
                    yield (x, y)

            return Stage("zip", lambda s, src, m: src.zip(r) if m else seq.zip(src)(r), ref, repeatable=False, inner=[(r, fsrc)])

        def ref2(s, it):
            b = iter(it)
            for x in iter(fsrc):
                try:
                    y = next(b)
                except StopIteration:
                    return
                yield (x, y)

        return Stage("zipfn", lambda s, src, m: Seq(r).zip(src) if m else pipe(src, seq.zip(r)), ref2, repeatable=False, inner=[(r, fsrc)])
    if name == "delay":
        return Stage("delay", lambda s, src, m: Seq.delay(lambda: src) if m else seq.delay(lambda: src), lambda s, it: (x for x in it))
    return Stage("rewrap", lambda s, src, m: Seq.of_iterable(src).map(_id) if m else seq.of_iterable(src), lambda s, it: (x for x in it))


SOURCE_KINDS = ["list", "tuple", "gen", "iter", "block", "Seq", "Seq(gen)", "seq.of", "range", "set1", "dictkeys", "singleton", "unfold", "str", "map"]


def make_source(rng, xs):
    """(kind, iterable over xs)."""
    kind = rng.choice(SOURCE_KINDS)
    if kind == "range":
        if rng.random() < 0.6:
            a = rng.choice([(rng.randrange(-4, 5), rng.randrange(-4, 12)), (rng.randrange(-4, 5), rng.randrange(-4, 12), rng.choice([-3, -2, -1, 1, 2, 3]))])
            return kind, rng.choice([range, seq.range, Seq.range])(*a), list(range(*a))
        n = rng.randrange(8)
        xs = list(range(n))
        return kind, rng.choice([range(n), seq.range(n), Seq.range(n), seq.range(0, n), Seq.range(0, n, 1)]), xs
    if kind == "str":
        t = rng.choice(["", "a", "abba", "x\u00e9\U0001f600"])
        return kind, rng.choice([t, Seq(t), deque(t), array.TypedArray(t)]), list(t)
    if kind == "map":
        m = Map.of_seq((k, k) for k in range(len(xs)))
        return kind, rng.choice([m, m.keys(), {k: 0 for k in range(len(xs))}]), list(range(len(xs)))
    if kind == "set1":
        xs = xs[:1]
        return kind, list(xs), xs
    if kind == "dictkeys":
        xs = list(range(len(xs)))
        return kind, dict.fromkeys(xs).keys(), xs
    if kind == "singleton":
        v = xs[0] if xs else None
        return kind, seq.singleton(v), [v]
    if kind == "unfold":
        def gen(i, xs=xs):
            return Some((xs[i], i + 1)) if i < len(xs) else Nothing

        return kind, (Seq.unfold(gen, 0) if rng.random() < 0.5 else pipe(0, seq.unfold(gen))), xs
    mk = {
        "list": lambda: list(xs),
        "tuple": lambda: tuple(xs),
        "gen": lambda: (x for x in xs),
        "iter": lambda: iter(list(xs)),
        "block": lambda: Block(xs),
        "Seq": lambda: Seq(list(xs)) if rng.random() < 0.5 else Seq.of_iterable(list(xs)),
        "Seq(gen)": lambda: Seq(x for x in xs),
        "seq.of": lambda: seq.of(*xs) if rng.random() < 0.5 else seq.of_list(list(xs)),
    }[kind]
    return kind, mk(), xs
